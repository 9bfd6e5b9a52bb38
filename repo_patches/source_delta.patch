From 9d73b93a97693b7a41e425d4c1db812345998f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 01/98] fix: truncate overlong GSF text on a character boundary
 so that the file can be read back

---
 mediagrains/gsf.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 7aff1fc..16f49a7 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1540,6 +1540,14 @@ def _encode_bool(val: bool) -> bytes:
     return _encode_uint(1 if val else 0, 1)
 
 
+def _encode_str(val: str, max_size: int) -> bytes:
+    """Encode as UTF-8, dropping whole characters from the end if needed to fit in max_size bytes"""
+    data = val.encode("utf-8")
+    if len(data) > max_size:
+        data = data[:max_size].decode("utf-8", errors="ignore").encode("utf-8")
+    return data
+
+
 def _encode_uuid(val: UUID) -> bytes:
     return val.bytes
 
@@ -2140,11 +2148,11 @@ class GSFEncoderTag(object):
 
     @property
     def encoded_key(self) -> bytes:
-        return self.key.encode("utf-8")[:65535]
+        return _encode_str(self.key, 65535)
 
     @property
     def encoded_value(self) -> bytes:
-        return self.value.encode("utf-8")[:65535]
+        return _encode_str(self.value, 65535)
 
     @property
     def tag_block_size(self) -> int:
@@ -2238,7 +2246,7 @@ class GSFEncoderSegment(object):
 
                 _encode_uuid(self._gsf_flow.src_id) +
                 _encode_uuid(self._gsf_flow.flow_id) +
-                (self._gsf_flow.format.encode("utf-8") + (b"\x00" * 64))[:64] +
+                _encode_str(self._gsf_flow.format, 64).ljust(64, b"\x00") +
                 _encode_uint(len(self._gsf_flow.data), 4) +
                 self._gsf_flow.data
             )
@@ -2292,7 +2300,7 @@ class GSFEncoderSegment(object):
                 _encode_uint(len(grain.timelabels), 2))
 
             for label in grain.timelabels:
-                tag = (label['tag'].encode('utf-8') + (b"\x00" * 16))[:16]
+                tag = _encode_str(label['tag'], 16).ljust(16, b"\x00")
                 data += (
                     tag +
                     _encode_uint(label['timelabel']['frames_since_midnight'], 4) +
-- 
2.43.0


From caa9970e3acb2aa3f6d274746ecae2a449f25ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 02/98] fix: decode a null GSF creation time as None instead of
 failing

---
 mediagrains/gsf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 16f49a7..dea7aeb 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -727,10 +727,10 @@ class SyncGSFBlock():
 
         return UUID(bytes=uuid_data)
 
-    def read_datetime(self) -> datetime:
+    def read_datetime(self) -> Optional[datetime]:
         """Read a date-time (with seconds resolution) stored in 7 bytes
 
-        :returns: Datetime
+        :returns: Datetime, or None for a null date-time (all members are 0)
         :raises EOFError: If there are fewer than 7 bytes left in the source
         """
         year = self.read_sint(2)
@@ -739,6 +739,9 @@ class SyncGSFBlock():
         hour = self.read_uint(1)
         minute = self.read_uint(1)
         second = self.read_uint(1)
+
+        if not any((year, month, day, hour, minute, second)):
+            return None
         return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
 
     def read_timestamp_v7(self) -> Timestamp:
-- 
2.43.0


From 837c83854364cbb8f548a09d97b3a20e36f22d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 03/98] fix: pass the extra keyword arguments of loads on to
 the decoder

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index dea7aeb..8dccf60 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -101,7 +101,7 @@ def loads(s: bytes,
     if parse_grain is None:
         parse_grain = GrainFactory
 
-    return load(BytesIO(s), cls=cls, parse_grain=parse_grain)
+    return load(BytesIO(s), cls=cls, parse_grain=parse_grain, **kwargs)
 
 
 @overload
-- 
2.43.0


From 450e39d868a2cf11510b02616227550aec00c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 04/98] fix: end GSF strings at the first null character,
 whatever bytes follow it

---
 mediagrains/gsf.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 8dccf60..d583ad8 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -430,10 +430,8 @@ class AsyncGSFBlock():
             raise EOFError("Unable to read enough bytes from source")
 
         try:
-            string = string_data.decode(encoding='utf-8').rstrip('\x00')
-            if not string or string[0] == '\x00':
-                return ""
-            return string
+            # The string is terminated by the first null character or by the end of the fixed size value
+            return string_data.split(b'\x00', 1)[0].decode(encoding='utf-8')
         except UnicodeDecodeError:
             raise GSFDecodeError(
                 f"Failed to decode bytes in block starting at {self.block_start} to a valid string",
@@ -693,10 +691,8 @@ class SyncGSFBlock():
             raise EOFError("Unable to read enough bytes from source")
 
         try:
-            string = string_data.decode(encoding='utf-8').rstrip('\x00')
-            if not string or string[0] == '\x00':
-                return ""
-            return string
+            # The string is terminated by the first null character or by the end of the fixed size value
+            return string_data.split(b'\x00', 1)[0].decode(encoding='utf-8')
         except UnicodeDecodeError:
             raise GSFDecodeError(
                 f"Failed to decode bytes in block starting at {self.block_start} to a valid string",
-- 
2.43.0


From 355e70854d42438e12c747a3ec77b7a3f869603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 05/98] fix: restart the GSF segment grain counts with each
 dump so that a second dump has right counts

---
 mediagrains/gsf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index d583ad8..0c18093 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2226,6 +2226,7 @@ class GSFEncoderSegment(object):
 
     def _encode_header(self, all_at_once: bool = False) -> Tuple[bytes, int]:
         self._active_dump = True
+        self._write_count = 0  # No grains have been written yet after this header
         data = (
             b"segm" +
             _encode_uint(self.segm_block_size, 4) +
-- 
2.43.0


From 3338311f718a36c3936695c770065733c604bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 06/98] fix: refuse to change the header of a GSF encoder while
 an asynchronous dump is in progress

---
 mediagrains/gsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 0c18093..32c27a1 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2024,7 +2024,7 @@ class GSFEncoder(object):
 
     def add_tag(self, key: str, value: str):
         """Add a tag to the file"""
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._open_async_encoder is not None:
             raise GSFEncodeAddToActiveDump("Cannot add a new tag to an encoder that is currently dumping")
 
         self._tags.append(GSFEncoderTag(key, value))
@@ -2036,7 +2036,7 @@ class GSFEncoder(object):
         integer, otherwise the next available integer will be used. Returns the newly
         created segment."""
 
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._open_async_encoder is not None:
             raise GSFEncodeAddToActiveDump(
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
-- 
2.43.0


From 46143a60cd7b9a44a503ba128fc19cb50a584517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 07/98] fix: write grains added through segment objects during
 an asynchronous dump instead of losing them

---
 mediagrains/gsf.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 32c27a1..03c65bb 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1748,6 +1748,10 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         segment = self._get_segment(segment_id, segment_local_id)
 
         if self._active_dump:
+            # Write any grains which were queued in the segment object first
+            queued = segment.encode_all_grains()
+            if queued:
+                self.file.write(queued)
             for grain in grains:
                 self.file.write(segment.encode_grain(grain))
         else:
@@ -1774,6 +1778,12 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
                         self._encode_all_grains())
 
     def _end_dump(self):
+        if self._active_dump:
+            # Write any grains which are still queued in the segment objects
+            queued = self._encode_all_grains()
+            if queued:
+                self.file.write(queued)
+
         for seg in self._segments.values():
             if self.file.seekable() and seg._count_pos != -1:
                 curpos = self.file.tell()
@@ -1834,6 +1844,10 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         segment = self._get_segment(segment_id, segment_local_id)
 
         if self._open_file is not None and self._active_dump:
+            # Write any grains which were queued in the segment object first
+            queued = segment.encode_all_grains()
+            if queued:
+                await self._open_file.write(queued)
             for grain in grains:
                 await self._open_file.write(segment.encode_grain(grain))
         else:
@@ -1867,6 +1881,12 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                                     self._encode_all_grains())
 
     async def _end_dump(self):
+        if self._active_dump:
+            # Write any grains which are still queued in the segment objects
+            queued = self._encode_all_grains()
+            if queued:
+                await self._open_file.write(queued)
+
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
                 curpos = self._open_file.tell()
-- 
2.43.0


From c8f290267b13a53012adec93ee43cb351daef450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 08/98] fix: skip blocks of synchronous GSF input that can't
 seek by reading over them

---
 mediagrains/gsf.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 03c65bb..7b3e5b9 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -479,6 +479,19 @@ class SyncGSFBlock():
         """Return the position in the base file using the base file offset self.file_data_start"""
         return self.file_data_start + self.file_data.tell()
 
+    def _skip_to(self, position: int) -> None:
+        """Move to a position in the base file, reading up to it if the file can't seek"""
+        offset = position - self.file_data_start
+        if self.file_data.seekable():
+            self.file_data.seek(offset, SEEK_SET)
+        else:
+            remaining = offset - self.file_data.tell()
+            while remaining > 0:
+                skipped = self.file_data.read(min(remaining, 65536))
+                if not skipped:
+                    break
+                remaining -= len(skipped)
+
     def __enter__(self) -> "SyncGSFBlock":
         """When used as a context manager, read block size and tag on entry
 
@@ -520,7 +533,7 @@ class SyncGSFBlock():
                 # If the size is special value then the actual size is 8
                 actual_size = max(8, self.size)
 
-                self.file_data.seek(self.block_start + actual_size - self.file_data_start, SEEK_SET)
+                self._skip_to(self.block_start + actual_size)
                 self.block_start = self._base_file_tell()
 
                 self.size = None
@@ -535,7 +548,7 @@ class SyncGSFBlock():
                 actual_size = max(8, self.size)
             else:
                 actual_size = 0
-            self.file_data.seek(self.block_start + actual_size - self.file_data_start, SEEK_SET)
+            self._skip_to(self.block_start + actual_size)
         except Exception:
             pass
 
-- 
2.43.0


From acddb0801e7e6bfc4cf499d6c0f6ffc3a00c5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 09/98] fix: make deferred GSF event grains readable and parse
 their payload when awaited

---
 mediagrains/grains/EventGrain.py | 13 +++++++++++++
 mediagrains/grains/Grain.py      |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index d90ce74..20106f9 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -3,6 +3,8 @@ from fractions import Fraction
 from inspect import isawaitable
 
 from typing import (
+    Any,
+    Generator,
     List,
     Union,
     SupportsBytes,
@@ -193,6 +195,7 @@ append(path, pre=None, post=None)
 
         if 'type' not in payload or 'topic' not in payload or 'data' not in payload:
             raise ValueError("incorrectly formated event payload")
+        self._data_fetcher_coroutine = None
         self.event_type = payload['type']
         self.topic = payload['topic']
         self.meta['grain']['event_payload']['data'] = []
@@ -204,6 +207,16 @@ append(path, pre=None, post=None)
                 d['post'] = datum['post']
             self.meta['grain']['event_payload']['data'].append(d)
 
+    def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
+        async def __inner():
+            fetcher = self._data_fetcher_coroutine
+            if fetcher is not None:
+                data = await fetcher
+                if data is not None and self._data_fetcher_coroutine is fetcher:
+                    self.data = data if isinstance(data, (str, bytes)) else bytes(data)
+            return self.data
+        return __inner().__await__()
+
     def __repr__(self) -> str:
         return "EventGrain({!r})".format(self.meta)
 
diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index b438d44..4fb7a88 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -691,7 +691,7 @@ media_rate
 
     @length.setter
     def length(self, L: int) -> None:
-        if self.data is None and self._data_fetcher_coroutine is not None:
+        if self._data is None and self._data_fetcher_coroutine is not None:
             self._data_fetcher_length = L
         else:
             raise AttributeError
-- 
2.43.0


From 0d797048e470eecd6c167e8f92b13c913552578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 10/98] fix: load deferred grains on leaving the GSF decoder
 without changing the table walked over

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 7b3e5b9..532b94e 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1108,7 +1108,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
     async def _kill_unused_lazy_loaders(self):
         self._exiting = True
-        for (key, grain) in self._unloaded_lazy_grains.items():
+        for (key, grain) in list(self._unloaded_lazy_grains.items()):
             await grain
 
     async def _load_unused_lazy_loaders(self):
-- 
2.43.0


From 0a9c987c6965282448b0d90b4ba9d18391c65981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 11/98] fix: allow deferred GSF grain data to be awaited more
 than once

---
 mediagrains/gsf.py | 57 +++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 532b94e..5ef77be 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -35,6 +35,8 @@ import warnings
 from inspect import isawaitable
 
 from typing import (
+    Any,
+    Generator,
     Optional,
     Iterable,
     Tuple,
@@ -1042,6 +1044,42 @@ class BaseGSFDecoderSession(object):
         return cast(GrainMetadataDict, meta)
 
 
+class _DeferredGrainData(object):
+    """The data of a grain in an asynchronous GSF file, read when it is first awaited.
+
+    Can be awaited any number of times. The result is None if the data had not been read when the decoder was left.
+    """
+    def __init__(self,
+                 parent: "GSFAsyncDecoderSession",
+                 key: int,
+                 file_data: OpenAsyncBinaryIO,
+                 pos: int,
+                 length: int,
+                 load_on_exit: bool = False):
+        self._parent = parent
+        self._key = key
+        self._file_data = file_data
+        self._pos = pos
+        self._length = length
+        self._load_on_exit = load_on_exit
+        self._started = False
+        self._data: Optional[bytes] = None
+
+    def __await__(self) -> Generator[Any, None, Optional[bytes]]:
+        return self._read_out_of_order().__await__()
+
+    async def _read_out_of_order(self) -> Optional[bytes]:
+        if not self._started and (self._load_on_exit or not self._parent._exiting):
+            self._started = True
+            self._parent._remove_lazy_grain(self._key)
+
+            oldpos = self._file_data.tell()
+            self._file_data.seek(self._pos)
+            self._data = await self._file_data.read(self._length)
+            self._file_data.seek(oldpos)
+        return self._data
+
+
 class GSFAsyncDecoderSession(BaseGSFDecoderSession):
     def __init__(self,
                  parse_grain: ParseGrainType,
@@ -1133,23 +1171,6 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         :yields: (Grain, local_id) tuple for each grain
         :raises GSFDecodeError: If grain is invalid (e.g. no "gbhd" child)
         """
-        async def _read_out_of_order(parent: GSFAsyncDecoderSession,
-                                     key: int,
-                                     file_data: OpenAsyncBinaryIO,
-                                     pos: int,
-                                     length: int,
-                                     load_on_exit=False) -> Optional[bytes]:
-            if load_on_exit or not parent._exiting:
-                parent._remove_lazy_grain(key)
-
-                oldpos = file_data.tell()
-                file_data.seek(pos)
-                data = await file_data.read(length)
-                file_data.seek(oldpos)
-                return data
-            else:
-                return None
-
         have_concatenation = False
 
         while True:
@@ -1195,7 +1216,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                         # It will be awaited when the data is actually needed.
                                         load_on_exit = (
                                             loading_mode == GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE)
-                                        data = _read_out_of_order(self,
+                                        data = _DeferredGrainData(self,
                                                                   self._next_lazy_grain_number,
                                                                   self.file_data,
                                                                   self.file_data.tell(),
-- 
2.43.0


From 7309e373d8860156b41828d5989283fbff53269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 12/98] fix: keep concurrent reads of an asynchronous GSF file
 from disturbing each other

---
 mediagrains/gsf.py | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 5ef77be..2dd5edf 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -30,6 +30,7 @@ from fractions import Fraction
 from frozendict import frozendict
 from .utils import IOBytes
 from os import SEEK_SET, SEEK_CUR
+import asyncio
 import warnings
 
 from inspect import isawaitable
@@ -48,6 +49,7 @@ from typing import (
     Type,
     IO,
     Sequence,
+    AsyncGenerator,
     AsyncIterable,
     Awaitable,
     overload,
@@ -1069,14 +1071,15 @@ class _DeferredGrainData(object):
         return self._read_out_of_order().__await__()
 
     async def _read_out_of_order(self) -> Optional[bytes]:
-        if not self._started and (self._load_on_exit or not self._parent._exiting):
-            self._started = True
-            self._parent._remove_lazy_grain(self._key)
-
-            oldpos = self._file_data.tell()
-            self._file_data.seek(self._pos)
-            self._data = await self._file_data.read(self._length)
-            self._file_data.seek(oldpos)
+        async with self._parent._file_lock:
+            if not self._started and (self._load_on_exit or not self._parent._exiting):
+                self._started = True
+                self._parent._remove_lazy_grain(self._key)
+
+                oldpos = self._file_data.tell()
+                self._file_data.seek(self._pos)
+                self._data = await self._file_data.read(self._length)
+                self._file_data.seek(oldpos)
         return self._data
 
 
@@ -1099,6 +1102,9 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         self._unloaded_lazy_grains: Dict[int, Grain] = {}
         self._next_lazy_grain_number = 0
 
+        # Held while the position in the file is in use
+        self._file_lock = asyncio.Lock()
+
         self._sync_compatibility_mode = sync_compatibility_mode
         self._support_concatenation = support_concatenation
 
@@ -1171,6 +1177,24 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         :yields: (Grain, local_id) tuple for each grain
         :raises GSFDecodeError: If grain is invalid (e.g. no "gbhd" child)
         """
+        iterator = self._grains(local_ids, loading_mode)
+        try:
+            while True:
+                async with self._file_lock:
+                    try:
+                        grain_and_id = await iterator.__anext__()
+                    except StopAsyncIteration:
+                        return
+                yield grain_and_id
+        finally:
+            async with self._file_lock:
+                await iterator.aclose()
+
+    async def _grains(self,
+                      local_ids: Optional[Sequence[int]],
+                      loading_mode: GrainDataLoadingMode
+                      ) -> AsyncGenerator[Tuple[Grain, int], None]:
+        """Generator to get grains from the GSF file, which moves the position in the file when advanced or closed"""
         have_concatenation = False
 
         while True:
-- 
2.43.0


From 0b59dae33be36153b72d2e61239402b0681b63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 13/98] fix: don't deliver the data of a GSF grain cut short by
 the end of the file

---
 mediagrains/gsf.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 2dd5edf..5aeb13c 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1078,8 +1078,13 @@ class _DeferredGrainData(object):
 
                 oldpos = self._file_data.tell()
                 self._file_data.seek(self._pos)
-                self._data = await self._file_data.read(self._length)
-                self._file_data.seek(oldpos)
+                try:
+                    data = await self._file_data.read(self._length)
+                finally:
+                    self._file_data.seek(oldpos)
+                if len(data) != self._length:
+                    raise EOFError("Unable to read enough bytes from source")
+                self._data = data
         return self._data
 
 
@@ -1258,7 +1263,10 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                     else:
                                         await self.file_data.read(grdt_block.get_remaining())
                                 else:
-                                    data = await self.file_data.read(grdt_block.get_remaining())
+                                    data_length = grdt_block.get_remaining()
+                                    data = await self.file_data.read(data_length)
+                                    if len(data) != data_length:
+                                        raise EOFError("Unable to read enough bytes from source")
 
                 grain = self.Grain(meta, data)
 
@@ -1383,13 +1391,19 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                     data = IOBytes(self.file_data,
                                                    self.file_data.tell(),
                                                    grdt_block.get_remaining())
+                                    # Ensure that the file isn't cut short within the data
+                                    self.file_data.seek(grdt_block.get_remaining() - 1, SEEK_CUR)
+                                    grdt_block.read_uint(1)
                                 elif loading_mode == GrainDataLoadingMode.LOAD_NEVER:
                                     if self.file_data.seekable():
                                         self.file_data.seek(grdt_block.get_remaining(), SEEK_CUR)
                                     else:
                                         self.file_data.read(grdt_block.get_remaining())
                                 else:
-                                    data = self.file_data.read(grdt_block.get_remaining())
+                                    data_length = grdt_block.get_remaining()
+                                    data = self.file_data.read(data_length)
+                                    if len(data) != data_length:
+                                        raise EOFError("Unable to read enough bytes from source")
 
                 grain = self.Grain(meta, data)
 
-- 
2.43.0


From ea7e342c24a9b8690952c6998369f3f0ac4f0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 14/98] fix: report the end of the source in GSF variable
 length byte arrays

---
 mediagrains/gsf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 5aeb13c..ff3d133 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -805,7 +805,12 @@ class SyncGSFBlock():
         :raises EOFError: If there are too few bytes left in the source
         """
         length = self.read_uint(4)
-        return self.file_data.read(length)
+        data = self.file_data.read(length)
+
+        if len(data) != length:
+            raise EOFError("Unable to read enough bytes from source")
+
+        return data
 
     def skip(self, length: int) -> None:
         """Skip length bytes
-- 
2.43.0


From 034cd64c08505a43979973bd92470f595b022fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 15/98] fix: report invalid dates and flow data in GSF headers
 as GSFDecodeError

---
 mediagrains/gsf.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index ff3d133..2d3590d 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -744,6 +744,7 @@ class SyncGSFBlock():
         """Read a date-time (with seconds resolution) stored in 7 bytes
 
         :returns: Datetime, or None for a null date-time (all members are 0)
+        :raises GSFDecodeError: If the date-time is not a valid one
         :raises EOFError: If there are fewer than 7 bytes left in the source
         """
         year = self.read_sint(2)
@@ -755,7 +756,10 @@ class SyncGSFBlock():
 
         if not any((year, month, day, hour, minute, second)):
             return None
-        return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
+        try:
+            return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
+        except ValueError:
+            raise GSFDecodeError(f"Invalid date-time in block starting at {self.block_start}", self.block_start)
 
     def read_timestamp_v7(self) -> Timestamp:
         """Read a version 7 mediatimestamp.Timestamp with no sign
@@ -883,11 +887,18 @@ class BaseGSFDecoderSession(object):
                             flow_id = segm_child.read_uuid()
                             format = segm_child.read_string(64)
                             data = segm_child.read_varbytes()
+                            try:
+                                flow_data = data.decode('utf-8')
+                            except UnicodeDecodeError:
+                                raise GSFDecodeError(
+                                    f"Failed to decode the data of the flow block at {segm_child.block_start}",
+                                    segm_child.block_start
+                                )
                             segm['flow'] = {
                                 'source_id': src_id,
                                 'flow_id': flow_id,
                                 'format': format,
-                                'data': data.decode('utf-8')
+                                'data': flow_data
                             }
                         elif segm_child.tag == "tag ":
                             key = segm_child.read_varstring()
-- 
2.43.0


From e02ae883e3dbafac5956219c6b139bbe72262443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 16/98] fix: don't allocate space for more data than there is
 when reading an AsyncBytesIO

---
 mediagrains/utils/asyncbinaryio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 15fdfc6..09753f5 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -119,6 +119,12 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
         "This coroutine should include any code that is to be run when the io stream is opened"
         self._pos = 0
 
+    async def read(self, size: int = -1) -> bytes:
+        if size > max(self._len - self._pos, 0):
+            # Fail before allocating space for data which isn't there
+            raise EOFError
+        return await super().read(size)
+
     @wrap_in_executor
     def readinto(self, b: bytearray) -> int:
         length = min(self._len - self._pos, len(b))
-- 
2.43.0


From ad94e8e41cb5b642d8ef7fcd56de7b9d65dbaa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 17/98] fix: refuse incorrectly formed event payloads with
 ValueError, leaving the event as it was

---
 mediagrains/grains/EventGrain.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 20106f9..51fa7db 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -193,19 +193,24 @@ append(path, pre=None, post=None)
         else:
             payload = json.loads(value)
 
-        if 'type' not in payload or 'topic' not in payload or 'data' not in payload:
+        if not isinstance(payload, dict) or 'type' not in payload or 'topic' not in payload or 'data' not in payload:
             raise ValueError("incorrectly formated event payload")
-        self._data_fetcher_coroutine = None
-        self.event_type = payload['type']
-        self.topic = payload['topic']
-        self.meta['grain']['event_payload']['data'] = []
+        if not isinstance(payload['data'], list):
+            raise ValueError("incorrectly formated event payload")
+        data: List[EventGrainDatumDict] = []
         for datum in payload['data']:
+            if not isinstance(datum, dict) or 'path' not in datum:
+                raise ValueError("incorrectly formated event payload")
             d: EventGrainDatumDict = {'path': datum['path']}
             if 'pre' in datum:
                 d['pre'] = datum['pre']
             if 'post' in datum:
                 d['post'] = datum['post']
-            self.meta['grain']['event_payload']['data'].append(d)
+            data.append(d)
+        self._data_fetcher_coroutine = None
+        self.event_type = payload['type']
+        self.topic = payload['topic']
+        self.meta['grain']['event_payload']['data'] = data
 
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
-- 
2.43.0


From aaab8c7f83d717daaa2115b473da92a99777cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 18/98] fix: keep the time labels when a grain's labels are
 assigned to itself or extended in place

---
 mediagrains/grains/Grain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 4fb7a88..f1eb8a3 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -533,8 +533,10 @@ media_rate
 
     @timelabels.setter
     def timelabels(self, value: "Union[List[Grain.TIMELABEL], Grain.TIMELABELS]") -> None:
+        # The value may be a view of this grain's own labels, so has to be read before they are changed
+        labels = list(value)
         cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = []
-        for x in value:
+        for x in labels:
             self.timelabels.append(x)
 
     def add_timelabel(self, tag: str, count: int, rate: Fraction, drop_frame: bool = False) -> None:
-- 
2.43.0


From d4d01e102e8170f2f1b21cdc8408aa286245f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 19/98] fix: don't give new deferred grain data the length
 announced for earlier deferred data

---
 mediagrains/grains/Grain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index f1eb8a3..2217f74 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -404,6 +404,7 @@ media_rate
         if isawaitable(value):
             self._data = None
             self._data_fetcher_coroutine = cast(Awaitable[Optional[GrainDataType]], value)
+            self._data_fetcher_length = 0
         else:
             self._data = cast(Optional[GrainDataType], value)
             self._data_fetcher_coroutine = None
-- 
2.43.0


From 51c000af9369b03c27c8c024a8dc36fd648274bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 20/98] fix: keep the order of an event's values when its
 payload is assigned, so that copies are equal

---
 mediagrains/grains/EventGrain.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 51fa7db..31790c2 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -201,12 +201,8 @@ append(path, pre=None, post=None)
         for datum in payload['data']:
             if not isinstance(datum, dict) or 'path' not in datum:
                 raise ValueError("incorrectly formated event payload")
-            d: EventGrainDatumDict = {'path': datum['path']}
-            if 'pre' in datum:
-                d['pre'] = datum['pre']
-            if 'post' in datum:
-                d['post'] = datum['post']
-            data.append(d)
+            # The order is kept so that the grain gives back the payload it was given
+            data.append(cast(EventGrainDatumDict, {key: datum[key] for key in datum if key in ('path', 'pre', 'post')}))
         self._data_fetcher_coroutine = None
         self.event_type = payload['type']
         self.topic = payload['topic']
-- 
2.43.0


From c922a59900268c6bc3495d8e0323d98d0c2a940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 21/98] fix: give copies of grains without data no data either

---
 mediagrains/grains/Grain.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 2217f74..a905737 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -366,10 +366,17 @@ media_rate
         return not (self == other)
 
     def __copy__(self) -> "Grain":
-        return GrainFactory(copy(self.meta), self.data)
+        clone = GrainFactory(copy(self.meta), self.data)
+        if self._data is None:
+            # The constructors make a new data element when there is none
+            clone._data = None
+        return clone
 
     def __deepcopy__(self, memo) -> "Grain":
-        return GrainFactory(deepcopy(self.meta), deepcopy(self.data))
+        clone = GrainFactory(deepcopy(self.meta), deepcopy(self.data))
+        if self._data is None:
+            clone._data = None
+        return clone
 
     def __bytes__(self) -> Optional[bytes]:
         if isinstance(self._data, bytes):
-- 
2.43.0


From 339bccc254f68d265a8de04c598bff8445514f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 22/98] fix: support slices of a grain's time labels for
 assignment, and of absent ones, like those of a list

---
 mediagrains/grains/Grain.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index a905737..a34f468 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -642,6 +642,8 @@ media_rate
 
         def __getitem__(self, key):  # noqa: F811
             if 'timelabels' not in self.parent.meta['grain']:
+                if isinstance(key, slice):
+                    return []
                 raise IndexError("list index out of range")
             if isinstance(key, int):
                 return Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][key])
@@ -655,17 +657,23 @@ media_rate
         def __setitem__(self, key: slice, value: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None: ...
 
         def __setitem__(self, key, value):  # noqa: F811
+            if isinstance(key, slice):
+                values = [dict(Grain.TIMELABEL(v)) for v in value]
+                labels = self.parent.meta['grain'].setdefault('timelabels', [])
+                try:
+                    labels[key] = values
+                finally:
+                    if len(labels) == 0:
+                        del self.parent.meta['grain']['timelabels']
+                return
             if 'timelabels' not in self.parent.meta['grain']:
                 raise IndexError("list assignment index out of range")
-            if isinstance(key, int):
-                self.parent.meta['grain']['timelabels'][key] = dict(Grain.TIMELABEL(value))
-            else:
-                values = iter(value)
-                for n in key:
-                    self.parent.meta['grain']['timelabels'][n] = dict(Grain.TIMELABEL(next(values)))
+            self.parent.meta['grain']['timelabels'][key] = dict(Grain.TIMELABEL(value))
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             if 'timelabels' not in self.parent.meta['grain']:
+                if isinstance(key, slice):
+                    return
                 raise IndexError("list assignment index out of range")
 
             del self.parent.meta['grain']['timelabels'][key]
-- 
2.43.0


From 560471faf296f3053e6804726e468c14a319af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 23/98] fix: support slices of absent unit offsets like those
 of an empty list

---
 mediagrains/grains/CodedVideoGrain.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index b45e5a7..72e1b08 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -346,6 +346,8 @@ unit_offsets
         def __getitem__(self, key):  # noqa: F811
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 return self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key]
+            elif isinstance(key, slice):
+                return []
             else:
                 raise IndexError("list index out of range")
 
@@ -358,6 +360,10 @@ unit_offsets
         def __setitem__(self, key, value):  # noqa: F811
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key] = value
+            elif isinstance(key, slice):
+                offsets: List[int] = []
+                offsets[key] = value
+                self.parent.unit_offsets = offsets
             else:
                 raise IndexError("list assignment index out of range")
 
@@ -366,7 +372,7 @@ unit_offsets
                 del cast(List[int], self.parent.meta['grain']['cog_coded_frame']['unit_offsets'])[key]
                 if len(self.parent.meta['grain']['cog_coded_frame']['unit_offsets']) == 0:
                     del self.parent.meta['grain']['cog_coded_frame']['unit_offsets']
-            else:
+            elif not isinstance(key, slice):
                 raise IndexError("list assignment index out of range")
 
         def insert(self, key: int, value: int) -> None:
-- 
2.43.0


From d5f506081e092fcda72f08c4ea4dbb53cf648400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 24/98] fix: let assignment to slices of a video grain's
 components change their number

---
 mediagrains/grains/VideoGrain.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 340b3d3..e2109f0 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -225,9 +225,8 @@ length
             if isinstance(key, int):
                 self.parent.meta['grain']['cog_frame']['components'][key] = type(self.parent).COMPONENT(value)
             else:
-                values = iter(value)
-                for n in range(len(self))[key]:
-                    self.parent.meta['grain']['cog_frame']['components'][n] = type(self.parent).COMPONENT(next(values))
+                self.parent.meta['grain']['cog_frame']['components'][key] = [
+                    type(self.parent).COMPONENT(v) for v in value]
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             del self.parent.meta['grain']['cog_frame']['components'][key]
-- 
2.43.0


From 226c11e10b3adc413a85c3dd8d7b2db45ccb0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 25/98] fix: store components assigned to a video grain in its
 metadata

---
 mediagrains/grains/VideoGrain.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index e2109f0..dca1f1e 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -443,7 +443,14 @@ length
             }
         self.meta['grain']['cog_frame']['format'] = int(self.meta['grain']['cog_frame']['format'])
         self.meta['grain']['cog_frame']['layout'] = int(self.meta['grain']['cog_frame']['layout'])
-        self.components = VideoGrain.COMPONENT_LIST(self)
+
+    @property
+    def components(self) -> "VideoGrain.COMPONENT_LIST":
+        return VideoGrain.COMPONENT_LIST(self)
+
+    @components.setter
+    def components(self, value: "Iterable[Union[VideoGrain.COMPONENT, VideoGrainComponentDict]]") -> None:
+        self.meta['grain']['cog_frame']['components'] = [cast(VideoGrainComponentDict, dict(c)) for c in value]
 
     @property
     @deprecated(version="4.0.0", reason="Referencing `format` directly is deprecated in favour of `cog_frame_format`")
-- 
2.43.0


From 60c0bb7b945ac8d85121fe918982c7d5d3531680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 26/98] fix: keep a video grain's metadata plain when
 components are set or inserted

---
 mediagrains/grains/VideoGrain.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index dca1f1e..d2a7acc 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -223,17 +223,16 @@ length
 
         def __setitem__(self, key, value):  # noqa: F811
             if isinstance(key, int):
-                self.parent.meta['grain']['cog_frame']['components'][key] = type(self.parent).COMPONENT(value)
+                self.parent.meta['grain']['cog_frame']['components'][key] = dict(value)
             else:
-                self.parent.meta['grain']['cog_frame']['components'][key] = [
-                    type(self.parent).COMPONENT(v) for v in value]
+                self.parent.meta['grain']['cog_frame']['components'][key] = [dict(v) for v in value]
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             del self.parent.meta['grain']['cog_frame']['components'][key]
 
         def insert(self, key: int, value: VideoGrainComponentDict) -> None:
             self.parent.meta['grain']['cog_frame']['components'].insert(
-                key, type(self.parent).COMPONENT(value))  # type: ignore
+                key, cast(VideoGrainComponentDict, dict(value)))
 
         def __len__(self) -> int:
             return len(self.parent.meta['grain']['cog_frame']['components'])
-- 
2.43.0


From 30f61b7b75cf0f756054b8f044e5da0b8bad0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 27/98] fix: allow list attributes of grains to be extended by
 themselves

---
 mediagrains/grains/CodedVideoGrain.py | 4 ++++
 mediagrains/grains/Grain.py           | 4 ++++
 mediagrains/grains/VideoGrain.py      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index 72e1b08..f1b3f55 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -383,6 +383,10 @@ unit_offsets
             else:
                 cast(List[int], self.parent.meta['grain']['cog_coded_frame']['unit_offsets']).insert(key, value)
 
+        def extend(self, values):
+            # Other views of the same list are not the same object, and the values could be one of them
+            super().extend(list(values))
+
         def __len__(self) -> int:
             if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
                 return len(self.parent.meta['grain']['cog_coded_frame']['unit_offsets'])
diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index a34f468..1def654 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -685,6 +685,10 @@ media_rate
                 cast(EmptyGrainMetadataDict, self.parent.meta)['grain']['timelabels'] = []
             self.parent.meta['grain']['timelabels'].insert(key, cast(TimeLabel, dict(Grain.TIMELABEL(value))))
 
+        def extend(self, values):
+            # Other views of the same list are not the same object, and the values could be one of them
+            super().extend(list(values))
+
         def __len__(self) -> int:
             if 'timelabels' not in self.parent.meta['grain']:
                 return 0
diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index d2a7acc..da3ae35 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -234,6 +234,10 @@ length
             self.parent.meta['grain']['cog_frame']['components'].insert(
                 key, cast(VideoGrainComponentDict, dict(value)))
 
+        def extend(self, values):
+            # Other views of the same list are not the same object, and the values could be one of them
+            super().extend(list(values))
+
         def __len__(self) -> int:
             return len(self.parent.meta['grain']['cog_frame']['components'])
 
-- 
2.43.0


From f1706a02043864387232e4ea04cf53ba7a8cacb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 28/98] fix: don't share the list of unit offsets a coded video
 grain is made from with its caller

---
 mediagrains/grains/CodedVideoGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index f1b3f55..efa6d07 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -183,7 +183,7 @@ unit_offsets
             data = bytearray(length)
 
         if "grain" in meta and "cog_coded_frame" in meta['grain'] and unit_offsets is not None:
-            meta['grain']['cog_coded_frame']['unit_offsets'] = unit_offsets
+            meta['grain']['cog_coded_frame']['unit_offsets'] = list(unit_offsets)
 
         super().__init__(meta, data)
         self.meta: CodedVideoGrainMetadataDict
-- 
2.43.0


From 56560dee2b11388dfd1a1647d3b829a737a9dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 29/98] fix: make bytes() and has_data() of an event grain
 reflect its payload

---
 mediagrains/grains/EventGrain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 31790c2..8f53b9a 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -208,6 +208,12 @@ append(path, pre=None, post=None)
         self.topic = payload['topic']
         self.meta['grain']['event_payload']['data'] = data
 
+    def __bytes__(self) -> bytes:
+        return self.data
+
+    def has_data(self) -> bool:
+        return self._data_fetcher_coroutine is None
+
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
             fetcher = self._data_fetcher_coroutine
-- 
2.43.0


From de3e91bac2f49465fa94682478ad170bc1058302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 30/98] fix: allow the pre value of an event to be set to None
 when there is none

---
 mediagrains/grains/EventGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 8f53b9a..e1de1d9 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -309,7 +309,7 @@ post
         def pre(self, value: Optional[MediaJSONSerialisable]) -> None:
             if value is not None:
                 self.meta['pre'] = value
-            else:
+            elif 'pre' in self.meta:
                 del self.meta['pre']
 
         @property
-- 
2.43.0


From b49ffb64c5f25e2eb8d9dbfa9f0e17f60dfdb536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 31/98] fix: make AYUV grains four bytes per pixel

---
 mediagrains/grains/VideoGrain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index da3ae35..f081a5e 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -315,9 +315,10 @@ length
                     bpv = 4
                 return (w*h + 2*((w*h) >> (h_shift + v_shift)))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     return w*h*2
-                elif fmt in (CogFrameFormat.RGBx,
+                elif fmt in (CogFrameFormat.AYUV,
+                             CogFrameFormat.RGBx,
                              CogFrameFormat.RGBA,
                              CogFrameFormat.xRGB,
                              CogFrameFormat.ARGB,
@@ -376,7 +377,7 @@ length
                 })
                 offset += ((w*h) >> (h_shift + v_shift))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     components.append({
                         'stride': w*2,
                         'offset': 0,
@@ -384,7 +385,8 @@ length
                         'height': h,
                         'length': h*w*2
                     })
-                elif fmt in (CogFrameFormat.RGBx,
+                elif fmt in (CogFrameFormat.AYUV,
+                             CogFrameFormat.RGBx,
                              CogFrameFormat.RGBA,
                              CogFrameFormat.xRGB,
                              CogFrameFormat.ARGB,
-- 
2.43.0


From 6914d9c8fe1e8932cfe4d1288ea7194647c3d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 32/98] fix: give presentation times of coded video grains
 without a rate

---
 mediagrains/grains/CodedVideoGrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index efa6d07..61ff478 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -425,20 +425,20 @@ unit_offsets
 
     @property
     def presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             return self.origin_timestamp + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.origin_timestamp
 
     def final_presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             return self.final_origin_timestamp() + Timestamp.from_count(self.temporal_offset, self.rate)
         else:
             return self.final_origin_timestamp()
 
     def presentation_origin_timerange(self) -> TimeRange:
         origin_tr = self.origin_timerange()
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.rate and self.temporal_offset is not None:
             if origin_tr.start is not None:
                 start = origin_tr.start + Timestamp.from_count(self.temporal_offset, self.rate)
             else:
-- 
2.43.0


From 7c91465f23cf9758972e0114a472c2c1935fe941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 33/98] fix: give time ranges of audio grains without a sample
 rate

---
 mediagrains/grains/AudioGrain.py      | 2 ++
 mediagrains/grains/CodedAudioGrain.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mediagrains/grains/AudioGrain.py b/mediagrains/grains/AudioGrain.py
index f3f588f..3f49a09 100644
--- a/mediagrains/grains/AudioGrain.py
+++ b/mediagrains/grains/AudioGrain.py
@@ -174,6 +174,8 @@ sample_rate
         self.meta['grain']['cog_audio']['format'] = int(self.meta['grain']['cog_audio']['format'])
 
     def final_origin_timestamp(self) -> Timestamp:
+        if not self.sample_rate:
+            return self.origin_timestamp
         return (self.origin_timestamp + TimeOffset.from_count(self.samples - 1, self.sample_rate, 1))
 
     @property
diff --git a/mediagrains/grains/CodedAudioGrain.py b/mediagrains/grains/CodedAudioGrain.py
index b60caaa..72a170d 100644
--- a/mediagrains/grains/CodedAudioGrain.py
+++ b/mediagrains/grains/CodedAudioGrain.py
@@ -179,6 +179,8 @@ remainder
         self.meta['grain']['cog_coded_audio']['format'] = int(self.meta['grain']['cog_coded_audio']['format'])
 
     def final_origin_timestamp(self) -> Timestamp:
+        if not self.sample_rate:
+            return self.origin_timestamp
         return (self.origin_timestamp + TimeOffset.from_count(self.samples - 1, self.sample_rate, 1))
 
     @property
-- 
2.43.0


From 89a2186fbd672fb141285770c3814efc22cb0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 34/98] fix: support BGRA in numpy video grains

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 99be2a0..a639ecf 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -44,7 +44,7 @@ def _dtype_from_cogframeformat(fmt: CogFrameFormat) -> np.dtype:
                  CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx,
+                 CogFrameFormat.BGRA,
                  CogFrameFormat.ARGB,
                  CogFrameFormat.xRGB,
                  CogFrameFormat.ABGR,
@@ -183,7 +183,7 @@ def _component_arrays_for_data_and_type(
     elif fmt in [CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx]:
+                 CogFrameFormat.BGRA]:
         # 8 bit 4:4:4:4 four components interleave dropping the fourth component
         return _component_arrays_for_interleaved_444_take_three(data,
                                                                 data[1:],
-- 
2.43.0


From abf97be1d0e9b68e429e64525ed862b7efda5561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 35/98] fix: don't change the payload of a numpy audio grain in
 S24_PLANES format by looking at it

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 05f9082..bac7547 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -66,8 +66,7 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
             # significant bits end to produce int32 samples
-            data = data.view(np.int32)
-            data <<= 8
+            data = data.view(np.int32) << 8
         sample_bytes = 4
     else:
         sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
-- 
2.43.0


From 39a70709b295a82d8684e173139246515f4bb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 36/98] fix: refuse compressed audio in numpy grains instead of
 reading it as 16 bit samples

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index bac7547..22cab80 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -14,6 +14,7 @@ import mediagrains.grains as bytesgrain
 
 from ...cogenums import (
     CogAudioFormat,
+    COG_AUDIO_IS_COMPRESSED,
     COG_AUDIO_IS_INT,
     COG_AUDIO_IS_FLOAT,
     COG_AUDIO_IS_DOUBLE,
@@ -28,7 +29,9 @@ from ...cogenums import (
 
 def _dtype_from_cogaudioformat(format: CogAudioFormat) -> np.dtype:
     """This method returns the numpy "data type" for a particular audio format."""
-    if COG_AUDIO_IS_INT(format):
+    if COG_AUDIO_IS_COMPRESSED(format):
+        raise NotImplementedError("Compressed audio is not supported for numpy array interpretation")
+    elif COG_AUDIO_IS_INT(format):
         if COG_AUDIO_FORMAT_DEPTH(format) == COG_AUDIO_FORMAT_DEPTH_S24:
             return np.dtype(np.uint8)
         elif COG_AUDIO_FORMAT_SAMPLEBYTES(format) == 2:
-- 
2.43.0


From 26c1e901c39ae1ddebe8a8205b196805d8cafd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 37/98] fix: keep the array views of numpy grains inside their
 payloads

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 20 +++-----------------
 mediagrains/numpy/numpy_grains/VideoGrain.py |  8 ++++++++
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 22cab80..2aef3f3 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -7,7 +7,6 @@ from uuid import UUID
 from fractions import Fraction
 
 import numpy as np
-from numpy.lib.stride_tricks import as_strided
 
 from mediatimestamp.immutable import SupportsMediaTimestamp
 import mediagrains.grains as bytesgrain
@@ -65,14 +64,11 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
             # Widen samples to int32
             wide_data = np.zeros((len(data) // 3, 4), dtype=np.uint8)
             wide_data[:, 1:] = data.reshape((-1, 3))
-            data = wide_data.view(np.int32)
+            data = wide_data.view(np.int32).reshape(-1)
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
             # significant bits end to produce int32 samples
             data = data.view(np.int32) << 8
-        sample_bytes = 4
-    else:
-        sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
 
     channel_data: List[np.ndarray] = []
     if COG_AUDIO_IS_PLANES(format):
@@ -84,14 +80,8 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
             )
     elif COG_AUDIO_IS_INTERLEAVED(format):
         for channel in range(channels):
-            interleave_offset = channel
-            next_interleave_offset = channel + samples
             channel_data.append(
-                as_strided(
-                    data[interleave_offset:next_interleave_offset],
-                    shape=(samples,),
-                    strides=(sample_bytes * channels,)
-                )
+                data[channel:channels * samples:channels]
             )
     elif COG_AUDIO_IS_PAIRS(format):
         for channel in range(channels):
@@ -99,11 +89,7 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
             pair_offset = 2 * channel_pair * samples
             next_pair_offset = 2 * (channel_pair + 1) * samples
             channel_data.append(
-                as_strided(
-                    data[pair_offset+(channel % 2):next_pair_offset],
-                    shape=(samples,),
-                    strides=(sample_bytes * 2,)
-                )
+                data[pair_offset+(channel % 2):next_pair_offset:2]
             )
 
     return channel_data
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index a639ecf..463211d 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -67,6 +67,8 @@ class ComponentDataList(list):
 
     def __init__(self, data: list, arrangement: ComponentOrder = ComponentOrder.X):
         super().__init__(data)
+        if len(self) < 3:
+            return
         if arrangement == ComponentDataList.ComponentOrder.YUV:
             self.Y = self[0]
             self.U = self[1]
@@ -157,6 +159,12 @@ def _component_arrays_for_data_and_type(
     if data is None:
         return []
 
+    if len(components) == 0 or any(
+     component.offset + max(component.length, component.stride*component.height) > data.nbytes
+     for component in components):
+        # The payload doesn't contain the components (it may not have been loaded), so they can't be accessed
+        return []
+
     if COG_FRAME_IS_PLANAR(fmt):
         return [
             as_strided(data[component.offset//data.itemsize:(component.offset + component.length)//data.itemsize],
-- 
2.43.0


From 1b356c83c97c1df0dd381f0f51deea381f17fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 38/98] fix: allow the data of numpy grains to be set to None
 like that of other grains

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 4 ++++
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 2aef3f3..25e94ac 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -162,6 +162,10 @@ class AudioGrain (bytesgrain.AudioGrain):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
             self.channel_data = []
+        elif value is None:
+            self._data_fetcher_coroutine = None
+            self._data = None
+            self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
             self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 463211d..e10626f 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -294,6 +294,10 @@ class VideoGrain (bytesgrain.VideoGrain):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
             self.component_data = ComponentDataList([])
+        elif value is None:
+            self._data_fetcher_coroutine = None
+            self._data = None
+            self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
             self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
-- 
2.43.0


From db973e1ad409f99ce9f145471629e8b3e48f3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 39/98] fix: compare numpy grains by their contents instead of
 failing

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 9 +++++++++
 mediagrains/numpy/numpy_grains/VideoGrain.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 25e94ac..8ff6a41 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -181,6 +181,15 @@ class AudioGrain (bytesgrain.AudioGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, bytesgrain.Grain):
+            other = (other.meta, other.data)
+        if not isinstance(other, tuple) or len(other) != 2 or self.meta != other[0]:
+            return False
+        if self._data is None or other[1] is None:
+            return self._data is other[1]
+        return bytes(self) == bytes(other[1])
+
     def __copy__(self) -> "AudioGrain":
         return AudioGrain(meta=copy(self.meta), data=self.data)
 
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index e10626f..37273a1 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -313,6 +313,15 @@ class VideoGrain (bytesgrain.VideoGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, bytesgrain.Grain):
+            other = (other.meta, other.data)
+        if not isinstance(other, tuple) or len(other) != 2 or self.meta != other[0]:
+            return False
+        if self._data is None or other[1] is None:
+            return self._data is other[1]
+        return bytes(self) == bytes(other[1])
+
     def __copy__(self) -> "VideoGrain":
         return VideoGrain(meta=copy(self.meta), data=self.data)
 
-- 
2.43.0


From df14fb675d9feef75d0fdecf5343149d3f6ebf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 40/98] fix: give copies of numpy grains without data no data
 either

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 13 ++++++++++---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 8ff6a41..bc924de 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -191,11 +191,18 @@ class AudioGrain (bytesgrain.AudioGrain):
         return bytes(self) == bytes(other[1])
 
     def __copy__(self) -> "AudioGrain":
-        return AudioGrain(meta=copy(self.meta), data=self.data)
+        clone = AudioGrain(meta=copy(self.meta), data=self.data)
+        if self._data is None:
+            # The constructors make a new data element when there is none
+            clone.data = None
+        return clone
 
     def __deepcopy__(self, memo) -> "AudioGrain":
-        return AudioGrain(meta=deepcopy(self.meta),
-                          data=self._data.copy() if self._data is not None else None)
+        clone = AudioGrain(meta=deepcopy(self.meta),
+                           data=self._data.copy() if self._data is not None else None)
+        if self._data is None:
+            clone.data = None
+        return clone
 
     def __repr__(self) -> str:
         if self.data is None:
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 37273a1..6df7b7d 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -323,11 +323,18 @@ class VideoGrain (bytesgrain.VideoGrain):
         return bytes(self) == bytes(other[1])
 
     def __copy__(self) -> "VideoGrain":
-        return VideoGrain(meta=copy(self.meta), data=self.data)
+        clone = VideoGrain(meta=copy(self.meta), data=self.data)
+        if self._data is None:
+            # The constructors make a new data element when there is none
+            clone.data = None
+        return clone
 
     def __deepcopy__(self, memo) -> "VideoGrain":
-        return VideoGrain(meta=deepcopy(self.meta),
-                          data=self._data.copy() if self._data is not None else None)
+        clone = VideoGrain(meta=deepcopy(self.meta),
+                           data=self._data.copy() if self._data is not None else None)
+        if self._data is None:
+            clone.data = None
+        return clone
 
     def __repr__(self) -> str:
         if self.data is None:
-- 
2.43.0


From 0c3c224bc59ecd992cc3d8fda99089220d209e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 41/98] fix: don't let samples wrap around when reducing bit
 depth

---
 mediagrains/numpy/convert.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index 2a0c925..ab29d3b 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -100,8 +100,9 @@ def _simple_duplicate_convert_yuv420__yuv422(grain_in: VideoGrain, grain_out: Vi
 
 
 # Bit depth conversions
-def _unbiased_right_shift(a: np.ndarray, n: int) -> np.ndarray:
-    return (a >> n) + ((a >> (n - 1)) & 0x1)
+def _unbiased_right_shift(a: np.ndarray, n: int, max_val: int) -> np.ndarray:
+    # Rounding up the largest values would make them too large for the reduced bit depth
+    return np.minimum((a >> n) + ((a >> (n - 1)) & 0x1), max_val)
 
 
 def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -109,10 +110,11 @@ def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> N
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
     )
+    max_val = (1 << COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)) - 1
 
-    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift)
-    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift)
-    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift)
+    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift, max_val)
+    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift, max_val)
+    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift, max_val)
 
 
 def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -120,10 +122,11 @@ def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> N
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
     )
+    max_val = (1 << COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)) - 1
 
-    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift)
-    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift)
-    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift)
+    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift, max_val)
+    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift, max_val)
+    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift, max_val)
 
 
 def _noisy_left_shift(a: np.ndarray, n: int) -> np.ndarray:
-- 
2.43.0


From a637af65df662ea4fd3490f9dc953471387ee672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 42/98] fix: clip colour conversions to the largest sample
 value so that samples don't wrap around

---
 mediagrains/numpy/convert.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index ab29d3b..fba004e 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -169,11 +169,11 @@ def _convert_rgb_to_yuv444(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((R*0.2126 + G*0.7152 + B*0.0722),
-            0, 1 << bd, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.Y, casting="unsafe")  # type: ignore
     np.clip((R*-0.114572 - G*0.385428 + B*0.5 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.U, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.U, casting="unsafe")
     np.clip((R*0.5 - G*0.454153 - B*0.045847 + (1 << (bd - 1))),  # type: ignore
-            0, 1 << bd, out=grain_out.component_data.V, casting="unsafe")
+            0, (1 << bd) - 1, out=grain_out.component_data.V, casting="unsafe")
 
 
 def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -184,11 +184,11 @@ def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((Y + V*1.5748),
-            0, 1 << bd, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
     np.clip((Y - U*0.187324 - V*0.468124),
-            0, 1 << bd, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
     np.clip((Y + U*1.8556),
-            0, 1 << bd, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
 
 
 def _convert_v210_to_yuv422_10bit(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-- 
2.43.0


From ee08cbcbdce8fcf2e67e3615a5bb7769ae5d51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 43/98] fix: keep the time labels and aspect ratios of
 converted grains

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 6df7b7d..edb88a6 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -389,16 +389,22 @@ class VideoGrain (bytesgrain.VideoGrain):
 
     def _similar_grain(self, fmt: CogFrameFormat) -> "VideoGrain":
         """Returns a new empty grain that has the specified format, but other parameters identical to this grain."""
-        return VideoGrain(src_id=self.source_id,
-                          flow_id=self.flow_id_for_converted_flow(fmt),
-                          origin_timestamp=self.origin_timestamp,
-                          sync_timestamp=self.sync_timestamp,
-                          cog_frame_format=fmt,
-                          width=self.width,
-                          height=self.height,
-                          rate=self.rate,
-                          duration=self.duration,
-                          cog_frame_layout=self.cog_frame_layout)
+        grain = VideoGrain(src_id=self.source_id,
+                           flow_id=self.flow_id_for_converted_flow(fmt),
+                           origin_timestamp=self.origin_timestamp,
+                           sync_timestamp=self.sync_timestamp,
+                           cog_frame_format=fmt,
+                           width=self.width,
+                           height=self.height,
+                           rate=self.rate,
+                           duration=self.duration,
+                           cog_frame_layout=self.cog_frame_layout)
+        for attribute in ('source_aspect_ratio', 'pixel_aspect_ratio'):
+            if getattr(self, attribute) is not None:
+                setattr(grain, attribute, getattr(self, attribute))
+        if len(self.timelabels) > 0:
+            grain.timelabels = deepcopy(list(self.timelabels))
+        return grain
 
     def convert(self, fmt: CogFrameFormat) -> "VideoGrain":
         """Used to convert this grain to a different cog format. Always produces a new grain.
-- 
2.43.0


From 1fcb705ad4ff1377f742907d3168fb6430fd1f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 44/98] fix: pairwise comparison keeping only the last result
 failed on empty iterators, and named the wrong entry as the first to differ

---
 mediagrains/comparison/_internal.py | 33 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index e8a7516..c0e90bd 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -536,32 +536,31 @@ class GrainIteratorComparisonResult(ComparisonResult):
             A = next(a, None)
             B = next(b, None)
 
+            comparison_result: ComparisonResult
             if A is None and B is None:
                 break
             elif A is None:
-                children.append(BOnlyComparisonResult("{}", B, options=self._options, key=self.compared_item_count))
-                all_success = False
-                break
+                comparison_result = BOnlyComparisonResult(
+                    "{}", B, options=self._options, key=self.compared_item_count)
             elif B is None:
-                children.append(AOnlyComparisonResult("{}", A, options=self._options, key=self.compared_item_count))
-                all_success = False
-                break
+                comparison_result = AOnlyComparisonResult(
+                    "{}", A, options=self._options, key=self.compared_item_count)
             else:
                 comparison_result = GrainComparisonResult(
                     "{}", A, B, options=self._options, key=self.compared_item_count)
-                self.compared_item_count += 1
 
-                if self.return_last_only:
-                    last_comparison = comparison_result
-                else:
-                    children.append(comparison_result)
+            if self.return_last_only:
+                children = [comparison_result]
+            else:
+                children.append(comparison_result)
 
-                if not comparison_result:
-                    all_success = False
-                    break
+            if not comparison_result:
+                all_success = False
+                first_difference = self.compared_item_count
 
-        if self.return_last_only and last_comparison is not None:
-            children.append(last_comparison)
+            self.compared_item_count += 1
+            if not all_success:
+                break
 
         if all_success:
             return (
@@ -572,7 +571,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         else:
             return (
                 False,
-                "Iterators differ first at entry {}".format(self.compared_item_count),
+                "Iterators differ first at entry {}".format(first_difference),
                 children
             )
 
-- 
2.43.0


From ec9ab54767e96f43647caa97077cfd89dc309121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 45/98] fix: comparing payloads failed on partial samples and
 NaNs, missed trailing bytes of 24 bit planar audio and misreported the first
 difference

---
 mediagrains/comparison/_internal.py | 56 ++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index c0e90bd..4c52a0f 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -274,11 +274,15 @@ class DataEqualityComparisonResult(ComparisonResult):
             return x
 
         if words_per_sample == 1:
-            if a is not None:
-                a = struct.unpack(alignment + (self.word_code*(len(a)//struct.calcsize(word_code))), a)
-            if b is not None:
-                b = struct.unpack(alignment + (self.word_code*(len(b)//struct.calcsize(word_code))), b)
+            self._sample_size = struct.calcsize(alignment + word_code)
+
+            def unpack(data):
+                count = len(data)//self._sample_size
+                whole = count*self._sample_size
+                # Any bytes left over after the last whole sample are compared one by one
+                return struct.unpack(alignment + (word_code*count), data[:whole]) + tuple(data[whole:])
         else:
+            self._sample_size = words_per_sample
             if alignment == ">" or alignment == "!" or (alignment in ['@', '='] and sys.byteorder != 'little'):
                 aligner = id
             else:
@@ -289,12 +293,17 @@ class DataEqualityComparisonResult(ComparisonResult):
             else:
                 signer = id
 
-            if a is not None:
-                a = [signer(reduce(lambda x, y: (x << 8) + y, aligner(v)))
-                     for v in chunkwise(struct.unpack(alignment + ('B'*(len(a))), a), words_per_sample)]
-            if b is not None:
-                b = [signer(reduce(lambda x, y: (x << 8) + y, aligner(v)))
-                     for v in chunkwise(struct.unpack(alignment + ('B'*(len(b))), b), words_per_sample)]
+            def unpack(data):
+                whole = len(data) - len(data) % words_per_sample
+                return [signer(reduce(lambda x, y: (x << 8) + y, aligner(v)))
+                        for v in chunkwise(data[:whole], words_per_sample)] + list(data[whole:])
+
+        self._raw_a = a
+        self._raw_b = b
+        if a is not None:
+            a = unpack(a)
+        if b is not None:
+            b = unpack(b)
 
         super(DataEqualityComparisonResult, self).__init__(identifier, a, b, **kwargs)
 
@@ -314,12 +323,15 @@ class DataEqualityComparisonResult(ComparisonResult):
             return (False, "For speed reasons not comparing {} and {} when this would be excluded".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
 
+        if self._raw_a == self._raw_b:
+            # This covers samples, such as a floating point NaN, that aren't equal to themselves
+            return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
+
         self.d = SequenceMatcher(None, a, b)
-        if self.d.ratio() == 1.0:
+        if self.d.ratio() == 1.0 and len(self._raw_a) == len(self._raw_b):
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
         else:
-            first_op = [x for x in self.d.get_opcodes() if x[0] != 'equal'][0]
-            i = first_op[1]
+            i = self._first_different_value()
             if i < len(a) and i < len(b):
                 msg = ("Binary data {} has similarity {} to {}, " +
                        "first different values are {}[{}] == {} and {}[{}] == {}").format(self._identifier.format('a'),
@@ -353,6 +365,18 @@ class DataEqualityComparisonResult(ComparisonResult):
                                                                                    b[i])
             return (False, msg, [])
 
+    def _first_different_value(self) -> int:
+        """The index of the first value at which the data differs"""
+        length = min(len(self._raw_a), len(self._raw_b))
+        i = next((n for n in range(length) if self._raw_a[n] != self._raw_b[n]), length)
+        samples = [len(raw)//self._sample_size for raw in (self._raw_a, self._raw_b)]
+        if i < min(samples)*self._sample_size:
+            return i//self._sample_size
+        elif samples[0] != samples[1]:
+            return min(samples)
+        else:
+            return samples[0] + i - samples[0]*self._sample_size
+
     # Ignoring typing on lines below as: error: Value of type "object" is not indexable
     def _str(self, prefix="") -> str:
         r = prefix
@@ -658,13 +682,13 @@ class GrainComparisonResult(ComparisonResult):
                                           CogAudioFormat.S16_PAIRS,
                                           CogAudioFormat.S16_INTERLEAVED]:
                     word_code = 'h'
-                elif a.cog_audio_format in [CogAudioFormat.S24_PLANES,
-                                            CogAudioFormat.S24_PAIRS,
+                elif a.cog_audio_format in [CogAudioFormat.S24_PAIRS,
                                             CogAudioFormat.S24_INTERLEAVED]:
                     word_code = 'B'
                     words_per_sample = 3
                     force_signed = True
-                elif a.cog_audio_format in [CogAudioFormat.S32_PLANES,
+                elif a.cog_audio_format in [CogAudioFormat.S24_PLANES,  # each sample is held in 32 bits
+                                            CogAudioFormat.S32_PLANES,
                                             CogAudioFormat.S32_PAIRS,
                                             CogAudioFormat.S32_INTERLEAVED]:
                     word_code = 'i'
-- 
2.43.0


From 9c98cb3e313044cdae007f8f9b19b6502d7eba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 46/98] fix: expected differences on integer attributes were
 ignored

---
 mediagrains/comparison/_internal.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 4c52a0f..be97da5 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -22,6 +22,7 @@ from mediatimestamp.immutable import TimeOffset, Timestamp
 from difflib import SequenceMatcher
 
 from functools import reduce
+from numbers import Number
 import struct
 import sys
 
@@ -224,6 +225,10 @@ class ComparisonResult(Generic[CR]):
 
 class EqualityComparisonResult(ComparisonResult):
     def compare(self, a, b) -> tuple[bool, str, list[ComparisonResult]]:
+        opts = [option for option in self.ownoptions() if isinstance(option, ComparisonExpectDifferenceMatches)]
+        if len(opts) != 0 and isinstance(a, Number) and isinstance(b, Number):
+            return DifferenceComparisonResult.compare_to_expected_differences(self, a - b, opts)
+
         if a == b:
             return (True, "{} == {!r}".format(self._identifier.format('<a/b>'), a), [])
         else:
@@ -424,12 +429,18 @@ class DifferenceComparisonResult(ComparisonResult):
                 return (False, "{} - {} == {!r}, not the expected {!r}".format(
                     self._identifier.format('a'), self._identifier.format('b'), diff, self._expected_difference), [])
         else:
-            if all(opt.matcher(diff) for opt in opts):
-                return (True, "{} - {} == {!r}, meets requirements set in options".format(
-                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
-            else:
-                return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
-                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
+            return self.compare_to_expected_differences(self, diff, opts)
+
+    @staticmethod
+    def compare_to_expected_differences(
+        result: ComparisonResult, diff, opts: list[ComparisonOption]
+    ) -> tuple[bool, str, list[ComparisonResult]]:
+        if all(opt.matcher(diff) for opt in opts):
+            return (True, "{} - {} == {!r}, meets requirements set in options".format(
+                result._identifier.format('a'), result._identifier.format('b'), diff), [])
+        else:
+            return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
+                result._identifier.format('a'), result._identifier.format('b'), diff), [])
 
 
 class TimestampDifferenceComparisonResult(DifferenceComparisonResult):
-- 
2.43.0


From 5a90319dd2e953e34530ad1423746fb9bd211d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 47/98] fix: expected differences could not be combined with &
 and |

---
 mediagrains/comparison/options.py | 50 +++++++++++++++----------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/mediagrains/comparison/options.py b/mediagrains/comparison/options.py
index c55637a..d69f77c 100644
--- a/mediagrains/comparison/options.py
+++ b/mediagrains/comparison/options.py
@@ -66,7 +66,7 @@ class _ExpectedDifference(object):
 
     def __ne__(self, other):
         return ComparisonExpectDifferenceMatches(
-            self.path, lambda x: x != other, "{} != {!r}".format('ExpectedDifference', other))
+            self.path, lambda x: x != other, "{} != {!r}".format(self.path.format('ExpectedDifference'), other))
 
     def __lt__(self, other):
         return ComparisonExpectDifferenceMatches(
@@ -84,30 +84,6 @@ class _ExpectedDifference(object):
         return ComparisonExpectDifferenceMatches(
             self.path, lambda x: x >= other, "{} >= {!r}".format('ExpectedDifference', other))
 
-    def __and__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} & {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with & they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
-
-    def __or__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} | {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with | they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
-
     def __getattr__(self, attr):
         if attr.startswith('__') and attr.endswith('__'):
             raise AttributeError
@@ -196,6 +172,30 @@ class ComparisonExpectDifferenceMatches(ComparisonOption):
     def __repr__(self):
         return self._repr
 
+    def __and__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} & {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with & they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
+
+    def __or__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} | {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with | they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
+
 
 class ComparisonPSNR(ComparisonOption):
     def __init__(self, path, matcher, _repr):
-- 
2.43.0


From bf6191956ad250a6c4165fdfaf1db0a51663b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 48/98] fix: PSNR results could not be accessed as data, and
 comparing PSNR of grains of different dimensions failed

---
 mediagrains/comparison/_internal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index be97da5..ea9925a 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -476,6 +476,9 @@ class PSNRComparisonResult(ComparisonResult):
 
         try:
             psnr = compute_psnr(a, b)
+        except AttributeError as e:
+            return (False, "Cannot compare PSNR of {} and {} because: {}".format(
+                self._identifier.format('a'), self._identifier.format('b'), e), [])
         except NotImplementedError:
             return (False, "Grain is not supported for PSNR comparison of {} and {}".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
@@ -685,7 +688,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 words_per_sample = 1
                 force_signed = False
@@ -776,7 +780,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 if COG_FRAME_IS_COMPRESSED(a.cog_frame_format):
                     word_code = 'B'
-- 
2.43.0


From a7d8e32b77bdda16d634656b7bfba5786975799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 49/98] fix: PSNR of v210, and of formats whose components
 differ, gave no or meaningless figures instead of being refused

---
 mediagrains/comparison/psnr.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mediagrains/comparison/psnr.py b/mediagrains/comparison/psnr.py
index 63cffe3..4fc4d87 100644
--- a/mediagrains/comparison/psnr.py
+++ b/mediagrains/comparison/psnr.py
@@ -125,6 +125,16 @@ def _compute_video_psnr(grain_a: Union[VideoGrain, numpy_VideoGrain],
     if not isinstance(grain_b, numpy_VideoGrain):
         grain_b = numpy_VideoGrain(grain=grain_b)
 
+    if len(grain_a.component_data) == 0 or len(grain_b.component_data) == 0:
+        raise NotImplementedError("PSNR is not supported without access to the components of the data")
+    if (
+        COG_FRAME_FORMAT_ACTIVE_BITS(grain_a.cog_frame_format) !=
+        COG_FRAME_FORMAT_ACTIVE_BITS(grain_b.cog_frame_format) or
+        list(vars(grain_a.component_data)) != list(vars(grain_b.component_data)) or  # the names of the components
+        any(a.shape != b.shape for (a, b) in zip(grain_a.component_data, grain_b.component_data))
+    ):
+        raise NotImplementedError("PSNR over formats with different components is not supported")
+
     if max_val is None:
         max_val = (1 << COG_FRAME_FORMAT_ACTIVE_BITS(grain_a.cog_frame_format)) - 1
 
-- 
2.43.0


From fdce1722feea74ed0ec12bc63b1da48d3a72c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 50/98] fix: give grains of a pattern generator for exactly the
 instants of its rate, and count by its rate

---
 mediagrains/patterngenerators/abc.py                   |  9 +++++++++
 mediagrains/patterngenerators/audio/tone.py            | 10 ++++------
 .../patterngenerators/video/movingbaroverlay.py        |  9 ++++++---
 mediagrains/patterngenerators/video/still.py           |  6 +++---
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/mediagrains/patterngenerators/abc.py b/mediagrains/patterngenerators/abc.py
index bbe260d..60cfe34 100644
--- a/mediagrains/patterngenerators/abc.py
+++ b/mediagrains/patterngenerators/abc.py
@@ -129,6 +129,15 @@ class FixedRatePatternGenerator (Generic[G], PatternGenerator[G], metaclass=ABCM
     def rate(self) -> Fraction:
         return self._rate
 
+    def _instant(self, key: TimeValue) -> Optional[TimeValue]:
+        """The time value at the generator's rate that key stands for, None if key lies between those time values.
+        A key that is a count without a rate counts at the generator's rate."""
+        key = TimeValue(key)
+        tv = TimeValue(key, rate=self._rate)
+        if (isinstance(key.value, Timestamp) or key.rate) and tv.as_timestamp() != key.as_timestamp():
+            return None
+        return tv
+
     def get_range(self, rng: TimeValueRange, skip: int = 1) -> Iterator[G]:
         if rng.rate is None:
             rng = TimeValueRange(rng, rate=self._rate)
diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index f0c38fe..861f74e 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -17,7 +17,6 @@ from uuid import UUID
 from math import sin, pi
 from typing import Optional, Dict, List, Union
 import struct
-from fractions import Fraction
 
 from mediatimestamp import TimeValue
 
@@ -158,13 +157,12 @@ class Tone(AudioPatternGenerator):
         return self.data_samples[offs]
 
     def get(self, key: TimeValue, default: Optional[AudioGrain] = None) -> Optional[AudioGrain]:
-        tv = TimeValue(key, rate=Fraction(self.sample_rate))
-        sample_count = tv.as_count()
+        tv = self._instant(key)
 
-        if sample_count % self.samples != 0:
-            return None
+        if tv is None:
+            return default
 
-        offs = sample_count % self.looplen
+        offs = (tv.as_count() * self.samples) % self.looplen
 
         ag = AudioGrain(
             src_id=self.src_id,
diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 1df7f13..1630ac7 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -67,11 +67,14 @@ class MovingBarOverlay (VideoPatternGenerator):
         self._bar = bar
 
     def get(self, key: TimeValue, default: Optional[VideoGrain] = None) -> Optional[VideoGrain]:
-        tv = TimeValue(key, rate=self.rate)
+        tv = self._instant(key)
 
-        grain = self._source[tv]
+        if tv is None:
+            return default
 
-        if grain is not None:
+        grain = self._source.get(tv, default)
+
+        if grain is not default:
             fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))
             _bpp = pixel_ranges[self.cog_frame_format][0]
             v_shift = COG_FRAME_FORMAT_V_SHIFT(self.cog_frame_format)
diff --git a/mediagrains/patterngenerators/video/still.py b/mediagrains/patterngenerators/video/still.py
index fc3f7bc..0f2fe26 100644
--- a/mediagrains/patterngenerators/video/still.py
+++ b/mediagrains/patterngenerators/video/still.py
@@ -38,11 +38,11 @@ class StillPatternGenerator (VideoPatternGenerator):
         self._template_grain = template_grain
 
     def get(self, key: TimeValue, default: Optional[VideoGrain] = None) -> Optional[VideoGrain]:
-        tv = TimeValue(key, rate=self.rate)
+        tv = self._instant(key)
 
-        if tv == key:
+        if tv is not None:
             grain = deepcopy(self._template_grain)
-            grain.origin_timestamp = key.as_timestamp()
+            grain.origin_timestamp = tv.as_timestamp()
             grain.sync_timestamp = grain.origin_timestamp
             return grain
         else:
-- 
2.43.0


From 5813544c416994de2784469562e796ad51398308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 51/98] fix: give the grains of a pattern generator inside a
 range, not those nearest to its bounds

---
 mediagrains/patterngenerators/abc.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/abc.py b/mediagrains/patterngenerators/abc.py
index 60cfe34..b34cdf9 100644
--- a/mediagrains/patterngenerators/abc.py
+++ b/mediagrains/patterngenerators/abc.py
@@ -138,7 +138,28 @@ class FixedRatePatternGenerator (Generic[G], PatternGenerator[G], metaclass=ABCM
             return None
         return tv
 
+    def _range_at_rate(self, rng: TimeValueRange) -> TimeValueRange:
+        """The generator's time values that lie within rng, a range without a rate"""
+        start, end, inclusivity = rng.start, rng.end, rng.inclusivity
+
+        # Time values are rounded to the nearest one at the rate, and such a rounded bound may lie on either side of the
+        # bound it stands for.
+        if start is not None and isinstance(start.value, Timestamp):
+            rounded = TimeValue(start, rate=self._rate)
+            if rounded.as_timestamp() < start.value:
+                inclusivity &= ~TimeValueRange.INCLUDE_START
+            elif rounded.as_timestamp() > start.value:
+                inclusivity |= TimeValueRange.INCLUDE_START
+        if end is not None and isinstance(end.value, Timestamp):
+            rounded = TimeValue(end, rate=self._rate)
+            if rounded.as_timestamp() > end.value:
+                inclusivity &= ~TimeValueRange.INCLUDE_END
+            elif rounded.as_timestamp() < end.value:
+                inclusivity |= TimeValueRange.INCLUDE_END
+
+        return TimeValueRange(start, end, inclusivity, rate=self._rate)
+
     def get_range(self, rng: TimeValueRange, skip: int = 1) -> Iterator[G]:
         if rng.rate is None:
-            rng = TimeValueRange(rng, rate=self._rate)
+            rng = self._range_at_rate(rng)
         return super().get_range(rng, skip=skip)
-- 
2.43.0


From 703f444c731694cbbbe99d8e7e0dced9dad9b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 52/98] fix: support objects with a media time range as keys of
 pattern generators

---
 mediagrains/patterngenerators/abc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/abc.py b/mediagrains/patterngenerators/abc.py
index b34cdf9..374274c 100644
--- a/mediagrains/patterngenerators/abc.py
+++ b/mediagrains/patterngenerators/abc.py
@@ -30,7 +30,8 @@ from mediatimestamp import (
     SupportsMediaTimestamp,
     TimeRange,
     CountRange,
-    SupportsMediaTimeRange)
+    SupportsMediaTimeRange,
+    mediatimerange)
 
 from mediagrains.grains.Grain import Grain
 
@@ -87,7 +88,7 @@ class PatternGenerator (Generic[G], metaclass=ABCMeta):
         elif isinstance(key, (Timestamp, TimeOffset, int, SupportsMediaTimeOffset, SupportsMediaTimestamp)):
             val = TimeValue(key)
         elif isinstance(key, SupportsMediaTimeRange):
-            rng = TimeValueRange(key)
+            rng = TimeValueRange(mediatimerange(key))
         else:
             raise ValueError(f"Invalid key: {key!r}")
 
-- 
2.43.0


From a6ce6c2e1c95006970c7f9dca19c40788bc5324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 53/98] fix: step from the start of a slice of a pattern
 generator when the step is a time

---
 mediagrains/patterngenerators/abc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mediagrains/patterngenerators/abc.py b/mediagrains/patterngenerators/abc.py
index 374274c..9d0962f 100644
--- a/mediagrains/patterngenerators/abc.py
+++ b/mediagrains/patterngenerators/abc.py
@@ -75,6 +75,8 @@ class PatternGenerator (Generic[G], metaclass=ABCMeta):
             if key.step is not None:
                 if isinstance(key.step, int):
                     skip = key.step
+                elif (step := self._grains_in(TimeValue(key.step))) is not None:
+                    skip = step
                 else:
                     rate = Fraction(TimeOffset.MAX_NANOSEC, TimeValue(key.step).as_timeoffset().to_nanosec())
 
@@ -105,6 +107,10 @@ class PatternGenerator (Generic[G], metaclass=ABCMeta):
             assert rng is not None
             return self.get_range(rng, skip=skip)
 
+    def _grains_in(self, step: TimeValue) -> Optional[int]:
+        """The number of grains whose duration is exactly step, None if there is no such number"""
+        return None
+
     def get_range(self, rng: TimeValueRange, skip: int = 1) -> Iterator[G]:
         if skip == 1:
             return (grain for grain in (self.get(tv) for tv in rng) if grain is not None)
@@ -139,6 +145,10 @@ class FixedRatePatternGenerator (Generic[G], PatternGenerator[G], metaclass=ABCM
             return None
         return tv
 
+    def _grains_in(self, step: TimeValue) -> Optional[int]:
+        tv = self._instant(step)
+        return tv.as_count() if tv is not None and tv > 0 else None
+
     def _range_at_rate(self, rng: TimeValueRange) -> TimeValueRange:
         """The generator's time values that lie within rng, a range without a rate"""
         start, end, inclusivity = rng.start, rng.end, rng.inclusivity
-- 
2.43.0


From f299f23c359434a25e42efeb93248eea795bc88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 54/98] fix: make generated audio in S24_PLANES format the size
 of that format

---
 mediagrains/patterngenerators/audio/tone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 861f74e..413a6b8 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -145,6 +145,9 @@ class Tone(AudioPatternGenerator):
 
             if depth == 16:
                 self.data_samples[offs] = struct.pack('@' + ('h'*self.samples*self.channels), *line)
+            elif depth == 24 and planes:
+                # each sample is held in the low 24 bits of 32
+                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-- 
2.43.0


From 999317548670b171aafa7f385ef55c90dad48188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 55/98] fix: generate audio in pairs for an odd number of
 channels

---
 mediagrains/patterngenerators/audio/tone.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 413a6b8..8f5e0bd 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -139,23 +139,23 @@ class Tone(AudioPatternGenerator):
             if planes:
                 line = line * self.channels
             elif pairs:
-                line = [x for x in line for _ in range(0, 2)] * (self.channels//2)
+                line = [x for x in line for _ in range(0, 2)] * ((self.channels + 1)//2)
             elif interleaved:
                 line = [x for x in line for _ in range(0, self.channels)]
 
             if depth == 16:
-                self.data_samples[offs] = struct.pack('@' + ('h'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
             elif depth == 24 and planes:
                 # each sample is held in the low 24 bits of 32
-                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 'f':
-                self.data_samples[offs] = struct.pack('@' + ('f'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('f'*len(line)), *line)
             elif depth == 'd':
-                self.data_samples[offs] = struct.pack('@' + ('d'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('d'*len(line)), *line)
 
         return self.data_samples[offs]
 
-- 
2.43.0


From f4a0e2fdd840510f5efbb543b5a7318b4dad27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 56/98] fix: limit samples of a full scale tone to the largest
 value of the format

---
 mediagrains/patterngenerators/audio/tone.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 8f5e0bd..4253dfb 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -89,17 +89,20 @@ class Tone(AudioPatternGenerator):
             if self.cog_audio_format in [CogAudioFormat.S16_PLANES,
                                          CogAudioFormat.S16_PAIRS,
                                          CogAudioFormat.S16_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 15)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 15)), (1 << 15) - 1) for x in self._sample_values]
                 depth = 16
             elif self.cog_audio_format in [CogAudioFormat.S24_PLANES,
                                            CogAudioFormat.S24_PAIRS,
                                            CogAudioFormat.S24_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 23)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 23)), (1 << 23) - 1) for x in self._sample_values]
                 depth = 24
             elif self.cog_audio_format in [CogAudioFormat.S32_PLANES,
                                            CogAudioFormat.S32_PAIRS,
                                            CogAudioFormat.S32_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 31)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 31)), (1 << 31) - 1) for x in self._sample_values]
                 depth = 32
             elif self.cog_audio_format in [CogAudioFormat.FLOAT_PLANES,
                                            CogAudioFormat.FLOAT_PAIRS,
-- 
2.43.0


From 08109d5740f96ed5cab04011ad91fd3d3975843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 57/98] fix: draw test patterns of eight bars for widths that
 aren't a multiple of eight

---
 mediagrains/patterngenerators/video/colourbars.py | 2 +-
 mediagrains/patterngenerators/video/lumasteps.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index 78ec154..eda0b5e 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -59,7 +59,7 @@ class ColourBars(StillPatternGenerator):
             bytearray(vg.components[2].width*_bpp)]
         for c in range(0, 3):
             for x in range(0, vg.components[c].width):
-                pos = x//(vg.components[c].width//_steps)
+                pos = (x*_steps)//vg.components[c].width
                 if _bpp == 1:
                     lines[c][x] = values[pos][c]
                 elif _bpp == 2:
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index 5c39ed1..c740f4f 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -47,7 +47,7 @@ class LumaSteps(StillPatternGenerator):
 
         line = bytearray(width*_bpp)
         for x in range(0, width):
-            pos = x//(width//_steps)
+            pos = (x*_steps)//width
             if _bpp == 1:
                 line[x] = (_offset + ((pos * _range)//_steps)) & 0xFF
             elif _bpp == 2:
-- 
2.43.0


From cfe6aa2b9c8a051cf0eaa8557aa7b4b7397e34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 58/98] fix: keep the colour of the moving bar with its
 brightness in pictures of odd height

---
 mediagrains/patterngenerators/video/movingbaroverlay.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 1630ac7..55ee576 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -76,6 +76,8 @@ class MovingBarOverlay (VideoPatternGenerator):
 
         if grain is not default:
             fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))
+            # the colour of pictures with an odd number of lines has to return to the top along with the brightness
+            fnum %= grain.components[0].height
             _bpp = pixel_ranges[self.cog_frame_format][0]
             v_shift = COG_FRAME_FORMAT_V_SHIFT(self.cog_frame_format)
 
-- 
2.43.0


From 618516b9da021f24390a2bf88b11997e55ea1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 59/98] fix: give generated grains the duration that goes with
 their rate

---
 mediagrains/patterngenerators/audio/tone.py       | 1 +
 mediagrains/patterngenerators/video/colourbars.py | 1 +
 mediagrains/patterngenerators/video/lumasteps.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 4253dfb..ca92e02 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -178,6 +178,7 @@ class Tone(AudioPatternGenerator):
             samples=self.samples,
             channels=self.channels,
             rate=self.rate,
+            duration=1/self.rate,
             sample_rate=self.sample_rate)
 
         ag.data = bytearray(self._get_samples(offs)[:ag.expected_length])
diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index eda0b5e..335f5dc 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -48,6 +48,7 @@ class ColourBars(StillPatternGenerator):
         vg = VideoGrain(src_id=src_id,
                         flow_id=flow_id,
                         rate=rate,
+                        duration=1/Fraction(rate),
                         cog_frame_format=cog_frame_format,
                         cog_frame_layout=CogFrameLayout.FULL_FRAME,
                         width=width,
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index c740f4f..0d3c511 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -40,6 +40,7 @@ class LumaSteps(StillPatternGenerator):
         vg = VideoGrain(src_id=src_id,
                         flow_id=flow_id,
                         rate=rate,
+                        duration=1/Fraction(rate),
                         cog_frame_format=cog_frame_format,
                         cog_frame_layout=CogFrameLayout.FULL_FRAME,
                         width=width,
-- 
2.43.0


From 52e80b6800683a1ed3ef7c6c54b1064b56e4bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 60/98] fix: draw the moving bar over pictures whose payload
 can't be changed in place

---
 .../patterngenerators/video/movingbaroverlay.py     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 55ee576..e42eb1d 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -14,7 +14,7 @@
 # limitations under the License.
 #
 
-from typing import Optional, cast
+from typing import Optional
 from mediatimestamp import TimeValue
 
 from ...grains import VideoGrain
@@ -81,23 +81,28 @@ class MovingBarOverlay (VideoPatternGenerator):
             _bpp = pixel_ranges[self.cog_frame_format][0]
             v_shift = COG_FRAME_FORMAT_V_SHIFT(self.cog_frame_format)
 
+            # the payload may be of any kind, including ones that can't be changed or aren't made of bytes
+            data = bytearray(grain.data)
+
             for y in range(0, self._bar_height):
                 line_no = ((fnum + y) % grain.components[0].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[0].offset + line_no*grain.components[0].stride:
                     grain.components[0].offset+line_no*grain.components[0].stride+grain.components[0].width*_bpp] = (
                         self._bar[0][y*grain.components[0].width * _bpp: (y+1)*grain.components[0].width * _bpp])
             for y in range(0, self._bar_height >> v_shift):
                 line_no = (((fnum >> v_shift) + y) % grain.components[1].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[1].offset + line_no*grain.components[1].stride:
                     grain.components[1].offset+line_no*grain.components[1].stride+grain.components[1].width*_bpp] = (
                         self._bar[1][y*grain.components[1].width * _bpp: (y+1)*grain.components[1].width * _bpp])
 
                 line_no = (((fnum >> v_shift) + y) % grain.components[2].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[2].offset + line_no*grain.components[2].stride:
                     grain.components[2].offset+line_no*grain.components[2].stride+grain.components[2].width*_bpp] = (
                         self._bar[2][y*grain.components[2].width * _bpp: (y+1)*grain.components[2].width * _bpp])
 
+            grain.data = data
+
         return grain
-- 
2.43.0


From 071bcd549fc3d7831888d7f78035b132bf10d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 61/98] fix: advance the sync timestamps of wrapped raw and
 H.264 essence along with the origin timestamps

---
 mediagrains/utils/grain_wrapper.py      | 1 +
 mediagrains/utils/h264_grain_wrapper.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 7b941fc..1214548 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -54,6 +54,7 @@ class GrainWrapper():
         for timestamp in grain_timerange.at_rate(self.template_grain.rate):
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = timestamp
+            new_grain.sync_timestamp = timestamp
 
             try:
                 grain_data = self.input_data.read(self.frame_size)
diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index 86cde04..abd9aca 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -146,6 +146,7 @@ class H264GrainWrapper(object):
 
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = norm_origin_ts
+            new_grain.sync_timestamp = norm_origin_ts
             if frame_info is not None:
                 new_grain.is_key_frame = frame_info.key_frame
             else:
-- 
2.43.0


From b859f48105c28b6ff5f19dff92f7ac25e0dd3fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 62/98] fix: fill raw grains from inputs that give less than
 was asked for at a time

---
 mediagrains/utils/grain_wrapper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 1214548..19778a5 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -56,10 +56,16 @@ class GrainWrapper():
             new_grain.origin_timestamp = timestamp
             new_grain.sync_timestamp = timestamp
 
-            try:
-                grain_data = self.input_data.read(self.frame_size)
-            except EOFError:
-                break
+            grain_data = b""
+            while len(grain_data) < self.frame_size:
+                # Unbuffered inputs may give less than was asked for before their end
+                try:
+                    more_data = self.input_data.read(self.frame_size - len(grain_data))
+                except EOFError:
+                    break
+                if not more_data:
+                    break
+                grain_data += more_data
 
             if grain_data:
                 new_grain.data = grain_data
-- 
2.43.0


From a66a0725ed4a41de817324c5fca13c512a11f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 63/98] fix: read whole ADTS frames from inputs that give less
 than was asked for at a time

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index b137da5..fe2bddb 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -43,6 +43,16 @@ class ADTSAACGrainWrapper(object):
         self.template_grain = copy.deepcopy(template_grain)  # make a copy as the template defaults will be updated
         self.input_data = input_data
 
+    def _read(self, size: int) -> bytes:
+        """Read size bytes, or what is left of the input. Unbuffered inputs may give less than was asked for."""
+        data = b""
+        while len(data) < size:
+            more_data = self.input_data.read(size - len(data))
+            if not more_data:
+                break
+            data += more_data
+        return data
+
     def _frames(self) -> typing.Iterator[typing.Tuple[bytes, FrameInfo]]:
         """Generator that yields ADTS AAC frame bytes read from the input given
 
@@ -51,12 +61,12 @@ class ADTSAACGrainWrapper(object):
         adts_aac_parser = ADTSAACParser()
 
         while True:
-            frame_data = self.input_data.read(MIN_ADTS_HEADER_SIZE)
+            frame_data = self._read(MIN_ADTS_HEADER_SIZE)
             if not frame_data:
                 break
 
             frame_info = adts_aac_parser.parse_header(frame_data)
-            frame_data += self.input_data.read(frame_info.frame_size - len(frame_data))
+            frame_data += self._read(frame_info.frame_size - len(frame_data))
 
             yield (frame_data, frame_info)
 
-- 
2.43.0


From 267a4b1936e34fc7d84c48674374b32e0c21c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 64/98] fix: refuse MPEG layer audio instead of taking it for
 AAC

---
 mediagrains/utils/adts_aac_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/adts_aac_parser.py b/mediagrains/utils/adts_aac_parser.py
index eb96a71..b423f21 100644
--- a/mediagrains/utils/adts_aac_parser.py
+++ b/mediagrains/utils/adts_aac_parser.py
@@ -43,6 +43,8 @@ class ADTSAACParser(object):
             raise ValueError("Insufficient data size to parse the ADTS header")
         elif frame_data[0] != 0xff or (frame_data[1] & 0xf0) != 0xf0:
             raise ValueError("Missing ADTS header - invalid sync word")
+        elif frame_data[1] & 0x06:
+            raise ValueError("Missing ADTS header - not AAC but another layer of MPEG audio")
 
         try:
             # Object type - 2 bits from bit 16
-- 
2.43.0


From 4ed5b0a448162bdf84a0a1190393ded0c236623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 65/98] fix: refuse ADTS frames said to be smaller than their
 header, which made the wrapper read the whole input

---
 mediagrains/utils/adts_aac_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/utils/adts_aac_parser.py b/mediagrains/utils/adts_aac_parser.py
index b423f21..08eb397 100644
--- a/mediagrains/utils/adts_aac_parser.py
+++ b/mediagrains/utils/adts_aac_parser.py
@@ -62,6 +62,9 @@ class ADTSAACParser(object):
                 ((frame_data[5] >> 5) & 0x07)
             )
 
+            if frame_size < MIN_ADTS_HEADER_SIZE:
+                raise ValueError("Invalid ADTS frame size {}".format(frame_size))
+
             frame_info = FrameInfo(frame_size, object_type, sample_rate, channels)
 
         except IndexError as e:
-- 
2.43.0


From 20000ef42f8fd85f172123e92eda9f92d94e0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 66/98] fix: assume the usual number of samples per AAC frame
 if the template grain has none set

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index fe2bddb..8fb9405 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -86,7 +86,7 @@ class ADTSAACGrainWrapper(object):
         else:
             self.template_grain.channels = frame_info.channels
             self.template_grain.sample_rate = frame_info.sample_rate
-            if self.template_grain.samples is None:
+            if not self.template_grain.samples:
                 # Assuming 1024 samples per coded frame.
                 # Use the --samples-per-grain option to override it to be 2048
                 self.template_grain.samples = 1024
-- 
2.43.0


From 06c2e2f4a1419fbe8f02ae46f40c85b3ee1c1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 67/98] fix: keep slices of an H.264 picture together whose
 reference indications differ without being zero

---
 mediagrains/utils/h264_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 4b53589..79e185a 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -201,7 +201,7 @@ class H264Parser(object):
                                     (slice_header.field_pic_flag and
                                         slice_header.bottom_field_flag != first_slice_header.bottom_field_flag) or
                                     (slice_header.nal_ref_idc != first_slice_header.nal_ref_idc and
-                                        (slice_header.nal_ref_idc != 0 or first_slice_header.nal_ref_idc != 0)) or
+                                        (slice_header.nal_ref_idc == 0 or first_slice_header.nal_ref_idc == 0)) or
                                     slice_header.idr_pic_flag != first_slice_header.idr_pic_flag or
                                     (slice_header.idr_pic_flag == 1 and
                                         slice_header.idr_pic_id != first_slice_header.idr_pic_id) or
-- 
2.43.0


From 3cddf58aa7a9e8344696ffcb43b71a94db123ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 68/98] fix: read H.264 slice group ids with the number of bits
 they have

---
 mediagrains/utils/h264_parser.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 79e185a..b0127f0 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -592,11 +592,8 @@ class H264Parser(object):
                 rbsp_bits.read('ue')  # slice_group_change_rate_minus1
             elif slice_group_map_type == 6:
                 pic_size_in_map_units_minus1 = rbsp_bits.read('ue')
+                bits_required = num_slice_groups_minus1.bit_length()  # Ceil(Log2(num_slice_groups_minus1 + 1))
                 for _ in range(0, pic_size_in_map_units_minus1 + 1):
-                    value = pic_size_in_map_units_minus1 + 1
-                    bits_required = 63
-                    while bits_required and not (value & (1 << bits_required)):
-                        bits_required -= 1
                     rbsp_bits.read('uint:{}'.format(bits_required))  # slice_group_id[]
         rbsp_bits.read('ue')  # num_ref_idx_l0_default_active_minus1
         rbsp_bits.read('ue')  # num_ref_idx_l1_default_active_minus1
-- 
2.43.0


From d96367fb7b72b98a3f80ea9521804d9870f3c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 69/98] fix: accept an unspecified extended sample aspect ratio
 in H.264

---
 mediagrains/utils/h264_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index b0127f0..f8236af 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -429,6 +429,8 @@ class H264Parser(object):
         ]
 
         if sps.aspect_ratio_idc == 255:  # extended SAR
+            if sps.sar_height == 0:
+                return Fraction(0, 1)  # unspecified, like aspect_ratio_idc 0
             return Fraction(sps.sar_width, sps.sar_height)
         elif sps.aspect_ratio_idc < len(aspect_ratios):
             return Fraction(aspect_ratios[sps.aspect_ratio_idc][0], aspect_ratios[sps.aspect_ratio_idc][1])
-- 
2.43.0


From afceae32bb0b47ccece856575ff4ff024a4c685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 70/98] fix: give H.264 grains the duration that goes with the
 rate found in the stream

---
 mediagrains/utils/h264_grain_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index abd9aca..69af943 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -136,6 +136,7 @@ class H264GrainWrapper(object):
                         self.template_grain.coded_height = 0
                 if frame_info.frame_rate is not None:
                     self.template_grain.rate = frame_info.frame_rate
+                    self.template_grain.duration = 1/frame_info.frame_rate
 
         rate = self.template_grain.rate
         norm_origin_ts = self.template_grain.origin_timestamp.normalise(rate.numerator, rate.denominator)
-- 
2.43.0


From fe9c19f39a48f96ab5799c994a52e67f43465447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 71/98] fix: the end of an essence stream on standard input was
 lost, or failed

---
 mediagrains/tools/_file_or_pipe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index 40f08b0..104c328 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -29,14 +29,15 @@ class InputStreamWrapper(BufferedIOBase):
 
     def read(self, size=-1) -> bytes:
         out = b""
-        if size == -1:
+        if size is None or size < 0:
             out = self._file.read(-1)
         else:
             s = size
             while len(out) < size:
                 b = self._file.read(s)
                 if len(b) == 0:
-                    raise EOFError
+                    # At the end of the stream give what was left of it, as a file does
+                    break
                 s -= len(b)
                 out += b
 
-- 
2.43.0


From fa9b756b5814e4bdce5a4ee8106fcc4a23b97961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 72/98] fix: look at every slice of the last H.264 picture for
 its key frame flag, also those after data partitions

---
 mediagrains/utils/h264_parser.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index f8236af..19ee670 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -309,10 +309,6 @@ class H264Parser(object):
 
                 primary_slice_headers.append(slice_header)
 
-            elif nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT:
-                # No primary slices
-                break
-
             elif nal_unit_type == NALUnitTypes.SEQUENCE_PARAMETER_SET:
                 rbsp_bits = self._parse_rbsp_bits(frame_bits[offset:next_offset])
                 sps = self._parse_sps(rbsp_bits)
-- 
2.43.0


From 8b9dc707bb7c95f928cf6954d44cabf44d5bb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 73/98] fix: reading all of an AsyncBytesIO leaves its position
 at the end

---
 mediagrains/utils/asyncbinaryio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 09753f5..df86f6f 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -138,7 +138,9 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
     @wrap_in_executor
     def readall(self) -> bytes:
         if self._pos >= 0 and self._pos < self._len:
-            return bytes(self._buffer[self._pos:self._len])
+            data = bytes(self._buffer[self._pos:self._len])
+            self._pos = self._len
+            return data
         else:
             return bytes()
 
-- 
2.43.0


From 9668d1f1ccfa0e588da58a645bffa946ee5fbd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 74/98] fix: truncating an AsyncBytesIO to a larger size gave
 too little data, and data cut off could come back

---
 mediagrains/utils/asyncbinaryio.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index df86f6f..eb9b3cf 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -161,10 +161,15 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
         return length
 
     async def truncate(self, size: Optional[int] = None) -> int:
-        if size is not None:
-            self._len = size
-        else:
-            self._len = max(self._pos, 0)
+        if size is None:
+            size = max(self._pos, 0)
+        if size < 0:
+            raise ValueError("negative size value {}".format(size))
+
+        # Like a file, lose what is beyond the new size and fill with zeros up to it
+        del self._buffer[min(size, self._len):]
+        self._buffer.extend(bytes(size - len(self._buffer)))
+        self._len = size
 
         return self._len
 
-- 
2.43.0


From c261330b55a3aeb39a630b6a3c20cb02f03ce4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 75/98] fix: refuse seeking an AsyncBytesIO before its start,
 where it gave bytes from its end, and return the position

---
 mediagrains/utils/asyncbinaryio.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index eb9b3cf..a7fc08f 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -178,11 +178,15 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     def seek(self, offset: int, whence: int = SEEK_SET):
         if whence == SEEK_SET:
-            self._pos = offset
+            pos = offset
         elif whence == SEEK_CUR:
-            self._pos += offset
+            pos = self._pos + offset
         else:
-            self._pos = self._len + offset
+            pos = self._len + offset
+        if pos < 0:
+            raise ValueError("negative seek position {}".format(pos))
+        self._pos = pos
+        return self._pos
 
     def seekable(self) -> bool:
         return True
-- 
2.43.0


From 6d6ac14c8e71e309a89ec94417964b0fb91f97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 76/98] fix: readall of wrapped files and byte buffers failed
 for files which aren't raw

---
 mediagrains/utils/asyncbinaryio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index a7fc08f..89bf92e 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -240,7 +240,7 @@ class OpenAsyncFileWrapper(OpenAsyncBinaryIO):
         return await wrap_in_executor(self.fp.readinto)(b)
 
     async def readall(self) -> bytes:
-        return await wrap_in_executor(self.fp.readall)()
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return await wrap_in_executor(self.fp.write)(b)
@@ -294,7 +294,7 @@ class OpenAsyncBytesIOWrapper(OpenAsyncBinaryIO):
         return self.fp.readinto(b)
 
     async def readall(self) -> bytes:
-        return self.fp.readall()
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         return self.fp.write(b)
-- 
2.43.0


From f2fd3bf65d51df890a9254601ed7bf909b108eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 77/98] fix: readall of a wrapped stream counted what was read
 twice in its position

---
 mediagrains/utils/asyncbinaryio.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 89bf92e..57a6426 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -384,9 +384,7 @@ class OpenAsyncStreamWrapper(OpenAsyncBinaryIO):
             return len(d)
 
     async def readall(self) -> bytes:
-        d = await self.read()
-        self._pos += len(d)
-        return d
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         if self.writer is None:
-- 
2.43.0


From f493a84d5e57b6f297e460609ccef7758384cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 78/98] fix: writing nothing beyond the end of an AsyncBytesIO
 made it longer

---
 mediagrains/utils/asyncbinaryio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 57a6426..a10cbd7 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -146,7 +146,7 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     @wrap_in_executor
     def write(self, b: bytes) -> int:
-        if self._pos < 0:
+        if self._pos < 0 or len(b) == 0:
             return 0
 
         if self._pos + len(b) > len(self._buffer):
-- 
2.43.0


From 6235dc30acc2ddf31727e09a7c0ba57f53cb2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 79/98] fix: compare lazily loaded objects, and those with byte
 arrays and memory views, by what they hold

---
 mediagrains/utils/iobytes.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index 8ae825b..8ce16ac 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -19,6 +19,7 @@ library's io.BytesIO, taking an io stream and wrapping it to appear as a
 bytes object, lazily loading as necessary.
 """
 
+import operator
 from collections.abc import Sequence
 from typing import List
 
@@ -70,24 +71,35 @@ class LazyLoader (object):
                 self._object = object.__getattribute__(self, '_loader')()
             return setattr(object.__getattribute__(self, '_object'), attr, value)
 
+    @staticmethod
+    def _loaded(obj):
+        """Return the object which a LazyLoader stands for, or any other object itself"""
+        if isinstance(obj, LazyLoader):
+            if object.__getattribute__(obj, '_object') is None:
+                obj._object = object.__getattribute__(obj, '_loader')()
+            return object.__getattribute__(obj, '_object')
+        return obj
+
     # In python2.7 some special methods may bypass __getattribute__, so need to be specifically redefined
-    def __lt__(self, *args, **kwargs):
-        return self.__getattribute__('__lt__')(*args, **kwargs)
+    # (comparisons are made between loaded objects, so that those with other lazily loaded ones or with types that have
+    # to be asked instead work too)
+    def __lt__(self, other):
+        return operator.lt(LazyLoader._loaded(self), LazyLoader._loaded(other))
 
-    def __le__(self, *args, **kwargs):
-        return self.__getattribute__('__le__')(*args, **kwargs)
+    def __le__(self, other):
+        return operator.le(LazyLoader._loaded(self), LazyLoader._loaded(other))
 
-    def __gt__(self, *args, **kwargs):
-        return self.__getattribute__('__gt__')(*args, **kwargs)
+    def __gt__(self, other):
+        return operator.gt(LazyLoader._loaded(self), LazyLoader._loaded(other))
 
-    def __ge__(self, *args, **kwargs):
-        return self.__getattribute__('__ge__')(*args, **kwargs)
+    def __ge__(self, other):
+        return operator.ge(LazyLoader._loaded(self), LazyLoader._loaded(other))
 
-    def __eq__(self, *args, **kwargs):
-        return self.__getattribute__('__eq__')(*args, **kwargs)
+    def __eq__(self, other):
+        return operator.eq(LazyLoader._loaded(self), LazyLoader._loaded(other))
 
-    def __ne__(self, *args, **kwargs):
-        return self.__getattribute__('__ne__')(*args, **kwargs)
+    def __ne__(self, other):
+        return operator.ne(LazyLoader._loaded(self), LazyLoader._loaded(other))
 
     def __cmp__(self, *args, **kwargs):
         return self.__getattribute__('__cmp__')(*args, **kwargs)
-- 
2.43.0


From 0b8b8b6f60cec0b02ba8ceb7b3aba30c5ece02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 80/98] fix: a lazily loaded object was true even if the object
 loaded is not

---
 mediagrains/utils/iobytes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index 8ce16ac..91d1910 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -104,8 +104,8 @@ class LazyLoader (object):
     def __cmp__(self, *args, **kwargs):
         return self.__getattribute__('__cmp__')(*args, **kwargs)
 
-    def __nonzero__(self, *args, **kwargs):
-        return self.__getattribute__('__nonzero__')(*args, **kwargs)
+    def __bool__(self):
+        return bool(LazyLoader._loaded(self))
 
     def __contains__(self, *args, **kwargs):
         return self.__getattribute__('__contains__')(*args, **kwargs)
@@ -172,6 +172,9 @@ class IOBytes (LazyLoader, Sequence):
         else:
             return len(self._object)
 
+    def __bool__(self):
+        return len(self) > 0
+
     def __repr__(self):
         if self._object is None:
             return "IOBytes({!r}, {!r}, {!r})".format(self._istream, self._start, self._length)
-- 
2.43.0


From d0d21fd1a70e2763f6a715544e7b0d0f25468dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 81/98] fix: raw audio could not be wrapped by the command line
 tool

---
 mediagrains/tools/wrap_in_gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index dd508d3..0b6e62a 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -175,7 +175,7 @@ def wrap_audio_in_gsf():
         template_grain = AudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
             duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            rate=1/duration
         )
         Wrapper = GrainWrapper
 
-- 
2.43.0


From 0ebead7f9897f28461a571d25623b9c54e336a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 82/98] fix: AAC could not be wrapped by the command line tool
 without telling samples and sample rate

---
 mediagrains/tools/wrap_in_gsf.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index 0b6e62a..5ea948d 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -148,12 +148,11 @@ def wrap_audio_in_gsf():
     source_id = args.source_id if args.source_id else uuid.uuid4()
 
     if args.format == CogAudioFormat.AAC:
-        duration = fractions.Fraction(args.samples_per_grain, args.sample_rate)
-
+        # The wrapper gets the channels, the sample rate and with it the grain rate and duration from the stream
         template_grain = CodedAudioGrain(
-            flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=args.sample_rate,
-            duration=duration, channels=args.channels, samples=args.samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=args.sample_rate or 0,
+            duration=fractions.Fraction(0, 1), channels=args.channels or 0, samples=args.samples_per_grain or 0,
+            cog_audio_format=args.format, rate=fractions.Fraction(0, 1)
         )
         Wrapper = ADTSAACGrainWrapper
 
-- 
2.43.0


From c64dbfb55c0d469f8a8402949e24f7986dd557e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 83/98] fix: extracting essence stopped with an error at a
 grain without any

---
 mediagrains/tools/extract_from_gsf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index d54b2eb..ba45726 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -45,7 +45,8 @@ def extract_gsf_essence():
         for grain, local_id in decoder.grains(local_ids=args.only_id):
             print("Got grain with local_id {} at {}".format(local_id, grain.origin_timestamp.to_sec_nsec()),
                   file=sys.stderr)
-            output_data.write(grain.data)
+            if grain.data is not None:
+                output_data.write(grain.data)
 
 
 def gsf_probe():
-- 
2.43.0


From da9d28b68e74a8911bc81e83d8039a22970bd6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 84/98] fix: the grain strategies ignored the format they were
 given

---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 55f7648..31e6f01 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -252,7 +252,7 @@ def audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate)
@@ -317,7 +317,7 @@ def coded_audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate,
@@ -377,7 +377,7 @@ def video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            width=width,
                            height=height,
                            cog_frame_layout=cog_frame_layout)
@@ -449,7 +449,7 @@ def coded_video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            origin_width=origin_width,
                            origin_height=origin_height,
                            coded_width=coded_width,
-- 
2.43.0


From 037be1868c063a53e86887913e28203fffcfb45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 85/98] fix: the coded audio grain strategy ignored the
 creation timestamp it was given

---
 mediagrains/hypothesis/strategies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 31e6f01..f6c26f2 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -313,6 +313,7 @@ def coded_audio_grains(src_id=None,
     return _grain_strategy(CodedAudioGrain, "coded_audio",
                            src_id=src_id,
                            flow_id=flow_id,
+                           creation_timestamp=creation_timestamp,
                            origin_timestamp=origin_timestamp,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
-- 
2.43.0


From 4816ab16a1bfb68fcbb027ecf062c80fcb27f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 86/98] fix: the event grain strategy failed for parameters
 passed as DONOTSET

---
 mediagrains/hypothesis/strategies.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index f6c26f2..478b571 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -588,16 +588,16 @@ def event_grains(src_id=None,
         duration = Fraction(1, 25)
 
     def event_grain(
-     src_id,
-     flow_id,
-     origin_timestamp,
-     sync_timestamp,
      rate,
      duration,
-     creation_timestamp,
-     event_type,
-     topic,
-     event_data):
+     src_id=None,
+     flow_id=None,
+     origin_timestamp=None,
+     sync_timestamp=None,
+     creation_timestamp=None,
+     event_type='',
+     topic='',
+     event_data=()):
         grain = EventGrain(
             src_id=src_id,
             flow_id=flow_id,
-- 
2.43.0


From 20c323fa699dc2c73eab06544ee74ad1a3137a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 87/98] fix: the coded grain strategies produced grains of
 unknown format

---
 mediagrains/hypothesis/strategies.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 478b571..ac2d7a1 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -93,11 +93,13 @@ def strategy_for_grain_attribute(attr, grain_type=None):
             # Uncompressed audio formats
             return sampled_from(CogAudioFormat).filter(lambda x: x < 0x200)
         elif grain_type == "coded_audio":
-            return sampled_from(CogAudioFormat).filter(lambda x: (x & 0x200) != 0 and x != CogAudioFormat.INVALID)
+            return sampled_from(CogAudioFormat).filter(lambda x: (x & 0x200) != 0 and x not in (CogAudioFormat.UNKNOWN,
+                                                                                                     CogAudioFormat.INVALID))
         elif grain_type == "video":
             return sampled_from(CogFrameFormat).filter(lambda x: ((x >> 9) & 0x1) == 0)
         elif grain_type == "coded_video":
-            return sampled_from(CogFrameFormat).filter(lambda x: (x & 0x200) != 0 and x != CogFrameFormat.INVALID)
+            return sampled_from(CogFrameFormat).filter(lambda x: (x & 0x200) != 0 and x not in (CogFrameFormat.UNKNOWN,
+                                                                                                     CogFrameFormat.INVALID))
         else:
             return ValueError("Cannot generate formats for grain type: {!r}".format(grain_type))
 
-- 
2.43.0


From 667f9e5c40ca20785dc7f83d354653e016822c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 88/98] fix: the unit offsets generated for coded video were
 not increasing

---
 mediagrains/hypothesis/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index ac2d7a1..7426f84 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -133,7 +133,7 @@ def strategy_for_grain_attribute(attr, grain_type=None):
               'is_key_frame': booleans(),
               'temporal_offset': integers(min_value=0, max_value=16),
               'unit_offsets': just(None) | lists(
-                integers(min_value=0, max_value=256), min_size=0, max_size=16).filter(sorted)}
+                integers(min_value=0, max_value=256), min_size=1, max_size=16, unique=True).map(sorted)}
     if attr not in strats:
         raise ValueError("No strategy known for grain attribute: {!r}".format(attr))
     if isinstance(strats[attr], Exception):
-- 
2.43.0


From 55a6f5d3d9d27f907765e106ef262ce4ec13139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 89/98] fix: grains drawn from a template shared its metadata

---
 mediagrains/hypothesis/strategies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 7426f84..5df4afa 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -40,7 +40,7 @@ from hypothesis.strategies import (
 import struct
 
 from fractions import Fraction
-from copy import copy
+from copy import deepcopy
 from uuid import UUID
 
 from ..grains import new_attributes_for_grain_type as attributes_for_grain_type
@@ -537,7 +537,7 @@ def grains_from_template_with_data(grain, data=None):
         data = just(data)
 
     def grain_with_data(grain, data):
-        grain = copy(grain)
+        grain = deepcopy(grain)
         grain.data = data
         return grain
 
-- 
2.43.0


From aecccce3476194b7e79686a6a20f6999c7ca6676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 90/98] fix: the length set for awaited data was lost on grains
 with array views

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 3 ++-
 mediagrains/numpy/numpy_grains/VideoGrain.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index bc924de..c8a3315 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -142,7 +142,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         if self._data is not None:
             return self._data.nbytes
         else:
-            return 0
+            return super().length
 
     @length.setter
     def length(self, L: int) -> None:
@@ -161,6 +161,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         if isawaitable(value):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
+            self._data_fetcher_length = 0
             self.channel_data = []
         elif value is None:
             self._data_fetcher_coroutine = None
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index edb88a6..1a02aec 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -273,7 +273,7 @@ class VideoGrain (bytesgrain.VideoGrain):
     @property
     def length(self) -> int:
         if self._data is None:
-            return 0
+            return super().length
         return self._data.nbytes
 
     @length.setter
@@ -293,6 +293,7 @@ class VideoGrain (bytesgrain.VideoGrain):
         if isawaitable(value):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
+            self._data_fetcher_length = 0
             self.component_data = ComponentDataList([])
         elif value is None:
             self._data_fetcher_coroutine = None
-- 
2.43.0


From 47e9dbe2068317f2fb2bbc554722d343bb336276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 91/98] fix: skipping in a pipe skipped less when it did not
 have everything yet

---
 mediagrains/tools/_file_or_pipe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index 104c328..2c28ca2 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -52,9 +52,10 @@ class InputStreamWrapper(BufferedIOBase):
 
         if offset < 0:
             raise NotImplementedError("Cannot seek backwards in a stream")
+        pos = self._pos + offset
         if offset > 0:
-            self._file.read(offset)
-        self._pos += offset
+            self.read(offset)
+        self._pos = pos
         return self._pos
 
 
-- 
2.43.0


From 37bd3307349f24e53c1822f3ffe58eaba81df020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 92/98] fix: don't ignore the positional arguments of numpy
 grains unless there are exactly two

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 5 ++++-
 mediagrains/numpy/numpy_grains/VideoGrain.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index c8a3315..311355d 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -117,8 +117,11 @@ class AudioGrain (bytesgrain.AudioGrain):
             data = grain.data
             super().__init__(meta=meta, data=data)
         else:
-            if args and len(args) == 2:
+            if len(args) > 2:
+                raise TypeError("only meta and data can be given as positional arguments")
+            if len(args) > 0:
                 meta = cast(AudioGrainMetadataDict, args[0])
+            if len(args) > 1:
                 data = cast(GrainDataParameterType, args[1])
             super().__init__(meta=meta, data=data, origin_timestamp=origin_timestamp,
                              creation_timestamp=creation_timestamp, sync_timestamp=sync_timestamp, rate=rate,
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 1a02aec..ec076dd 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -250,8 +250,11 @@ class VideoGrain (bytesgrain.VideoGrain):
             data = grain.data
             super().__init__(meta, data)
         else:
-            if args and len(args) == 2:
+            if len(args) > 2:
+                raise TypeError("only meta and data can be given as positional arguments")
+            if len(args) > 0:
                 meta = cast(VideoGrainMetadataDict, args[0])
+            if len(args) > 1:
                 data = cast(GrainDataParameterType, args[1])
             super().__init__(meta=meta, data=data, origin_timestamp=origin_timestamp,
                              creation_timestamp=creation_timestamp, sync_timestamp=sync_timestamp, rate=rate,
-- 
2.43.0


From 71a64844ac3a946d21a5ad1b0ce30fab2f8b05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:02 +0000
Subject: [PATCH 93/98] fix: refuse a payload of part of a 24 bit sample before
 replacing the payload of an audio grain

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 311355d..78196b8 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -171,11 +171,13 @@ class AudioGrain (bytesgrain.AudioGrain):
             self._data = None
             self.channel_data = []
         else:
-            self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
+            # A payload of part of a sample is refused, and leaves the grain as it was
+            new_data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
             self.channel_data = _channel_arrays_for_data_and_type(
-                self._data, self.format, self.samples, self.channels
+                new_data, self.format, self.samples, self.channels
             )
+            self._data_fetcher_coroutine = None
+            self._data = new_data
 
     def __array__(self) -> Optional[np.ndarray]:
         return np.array(self.data)
-- 
2.43.0


From 8c32d97039be46c8e4f9894674d8b7ba0f1df643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 94/98] fix: keep the payload given last when one that was
 being awaited arrives

---
 mediagrains/grains/Grain.py                  | 8 ++++++--
 mediagrains/numpy/numpy_grains/AudioGrain.py | 8 ++++++--
 mediagrains/numpy/numpy_grains/VideoGrain.py | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 1def654..57c3088 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -390,8 +390,12 @@ media_rate
 
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self._data = await self._data_fetcher_coroutine
+            fetcher = self._data_fetcher_coroutine
+            if self._data is None and fetcher is not None:
+                data = await fetcher
+                # The grain may have been given other data in the meantime
+                if self._data is None and self._data_fetcher_coroutine is fetcher:
+                    self._data = data
             return self._data
         return __inner().__await__()
 
diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 78196b8..71a25b9 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -218,8 +218,12 @@ class AudioGrain (bytesgrain.AudioGrain):
 
     def __await__(self) -> Generator[Any, None, np.ndarray]:
         async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self.data = await self._data_fetcher_coroutine
+            fetcher = self._data_fetcher_coroutine
+            if self._data is None and fetcher is not None:
+                data = await fetcher
+                # The grain may have been given other data in the meantime
+                if self._data is None and self._data_fetcher_coroutine is fetcher:
+                    self.data = data
             return self.data
         return __inner().__await__()
 
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index ec076dd..364da29 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -348,8 +348,12 @@ class VideoGrain (bytesgrain.VideoGrain):
 
     def __await__(self) -> Generator[Any, None, np.ndarray]:
         async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self.data = await self._data_fetcher_coroutine
+            fetcher = self._data_fetcher_coroutine
+            if self._data is None and fetcher is not None:
+                data = await fetcher
+                # The grain may have been given other data in the meantime
+                if self._data is None and self._data_fetcher_coroutine is fetcher:
+                    self.data = data
             return self.data
         return __inner().__await__()
 
-- 
2.43.0


From 27d3fea3d54728c9b2d672eef639292b6c0bf0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:17 +0000
Subject: [PATCH 95/98] fix: let a payload be awaited again when waiting for it
 was cancelled

---
 mediagrains/gsf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 2d3590d..3b1bfe6 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1090,14 +1090,17 @@ class _DeferredGrainData(object):
         async with self._parent._file_lock:
             if not self._started and (self._load_on_exit or not self._parent._exiting):
                 self._started = True
-                self._parent._remove_lazy_grain(self._key)
-
                 oldpos = self._file_data.tell()
                 self._file_data.seek(self._pos)
                 try:
                     data = await self._file_data.read(self._length)
+                except asyncio.CancelledError:
+                    self._started = False  # Read when next awaited instead
+                    raise
                 finally:
                     self._file_data.seek(oldpos)
+                    if self._started:
+                        self._parent._remove_lazy_grain(self._key)
                 if len(data) != self._length:
                     raise EOFError("Unable to read enough bytes from source")
                 self._data = data
-- 
2.43.0


From 2c62b7799b499fe6a0f8937f04e2ed59565aee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 96/98] fix: write and read into objects with items of more
 than one byte in async binary files

---
 mediagrains/utils/asyncbinaryio.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index a10cbd7..cfa35f0 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -113,7 +113,7 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
     def __init__(self, b: bytes):
         self._buffer = bytearray(b)
         self._pos = 0
-        self._len = len(b)
+        self._len = len(self._buffer)
 
     async def __open__(self) -> None:
         "This coroutine should include any code that is to be run when the io stream is opened"
@@ -127,9 +127,11 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     @wrap_in_executor
     def readinto(self, b: bytearray) -> int:
-        length = min(self._len - self._pos, len(b))
+        # The object may have items of more than one byte
+        view = memoryview(b).cast('B')
+        length = min(self._len - self._pos, len(view))
         if length > 0:
-            b[:length] = self._buffer[self._pos:self._pos + length]
+            view[:length] = self._buffer[self._pos:self._pos + length]
             self._pos += length
             return length
         else:
@@ -146,6 +148,7 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
 
     @wrap_in_executor
     def write(self, b: bytes) -> int:
+        b = bytes(memoryview(b))
         if self._pos < 0 or len(b) == 0:
             return 0
 
@@ -375,11 +378,12 @@ class OpenAsyncStreamWrapper(OpenAsyncBinaryIO):
         if self.reader is None:
             raise UnsupportedOperation("Attempted to read from an output stream")
         await self._align_pos()
-        d = await self._read(len(b))
+        view = memoryview(b).cast('B')
+        d = await self._read(len(view))
         if d is None:
             return 0
         else:
-            b[:len(d)] = d
+            view[:len(d)] = d
             self._pos += len(d)
             return len(d)
 
@@ -390,6 +394,7 @@ class OpenAsyncStreamWrapper(OpenAsyncBinaryIO):
         if self.writer is None:
             raise UnsupportedOperation("Attempted to write to an input stream")
         await self._align_pos()
+        b = bytes(memoryview(b))
         self.writer.write(b)
         await self.writer.drain()
         self._pos += len(b)
-- 
2.43.0


From 32e2354c04eed1b54ab8a9fa10518c564bc52966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:23 +0000
Subject: [PATCH 97/98] fix: give the bytes of a payload which is an array as
 the length of its grain

---
 mediagrains/grains/Grain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 57c3088..8c8ae2a 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -12,6 +12,7 @@ from collections.abc import Sequence, MutableSequence, Mapping
 from fractions import Fraction
 from copy import copy, deepcopy
 from inspect import isawaitable
+from numpy import ndarray
 
 from typing import (
     List,
@@ -706,7 +707,10 @@ media_rate
 
     @property
     def length(self) -> int:
-        if hasattr(self.data, "__len__"):
+        if isinstance(self.data, (ndarray, memoryview)):
+            # These may have items of more than one byte
+            return self.data.nbytes
+        elif hasattr(self.data, "__len__"):
             return len(cast(Sized, self.data))
         elif hasattr(self.data, "__bytes__"):
             return len(bytes(cast(SupportsBytes, self.data)))
-- 
2.43.0


From 3789c7201425f6a8a11571ea31350e5773355f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:50 +0000
Subject: [PATCH 98/98] fix: accept payloads an array can not address, such as
 lazily loaded ones, in numpy grains

---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  5 ++--
 mediagrains/numpy/numpy_grains/VideoGrain.py |  5 ++--
 mediagrains/numpy/numpy_grains/_buffer.py    | 29 ++++++++++++++++++++
 3 files changed, 35 insertions(+), 4 deletions(-)
 create mode 100644 mediagrains/numpy/numpy_grains/_buffer.py

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 71a25b9..c744982 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -1,5 +1,6 @@
 from typing import Optional, Awaitable, cast, Generator, Any, List
 from ...typing import AudioGrainMetadataDict, GrainDataType, GrainDataParameterType
+from ._buffer import buffer_of
 from inspect import isawaitable
 
 from copy import copy, deepcopy
@@ -132,7 +133,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         self.channel_data: List[np.ndarray]
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = np.frombuffer(buffer_of(self._data), dtype=_dtype_from_cogaudioformat(self.format))
         if self._data is not None:
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
@@ -172,7 +173,7 @@ class AudioGrain (bytesgrain.AudioGrain):
             self.channel_data = []
         else:
             # A payload of part of a sample is refused, and leaves the grain as it was
-            new_data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
+            new_data = np.frombuffer(buffer_of(value), dtype=_dtype_from_cogaudioformat(self.format))
             self.channel_data = _channel_arrays_for_data_and_type(
                 new_data, self.format, self.samples, self.channels
             )
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 364da29..a7e360a 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -13,6 +13,7 @@ from numpy.lib.stride_tricks import as_strided
 
 from typing import Callable, Dict, Tuple, Optional, Awaitable, cast, Generator, Any
 from ...typing import VideoGrainMetadataDict, GrainDataType, GrainDataParameterType
+from ._buffer import buffer_of
 
 from inspect import isawaitable
 
@@ -266,7 +267,7 @@ class VideoGrain (bytesgrain.VideoGrain):
         self.component_data: ComponentDataList
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = np.frombuffer(buffer_of(self._data), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
@@ -304,7 +305,7 @@ class VideoGrain (bytesgrain.VideoGrain):
             self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = np.frombuffer(buffer_of(value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
diff --git a/mediagrains/numpy/numpy_grains/_buffer.py b/mediagrains/numpy/numpy_grains/_buffer.py
new file mode 100644
index 0000000..1e3cdce
--- /dev/null
+++ b/mediagrains/numpy/numpy_grains/_buffer.py
@@ -0,0 +1,29 @@
+#
+# Copyright 2020 British Broadcasting Corporation
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+#
+
+from typing import SupportsBytes, Union
+
+import numpy as np
+
+
+def buffer_of(data: Union[SupportsBytes, bytes, np.ndarray]) -> Union[bytes, np.ndarray]:
+    """The data itself if an array can address it, otherwise (for example data loaded lazily from a file) its bytes"""
+    try:
+        memoryview(data)  # type: ignore
+    except TypeError:
+        if hasattr(data, "__bytes__"):
+            return bytes(data)
+    return data  # type: ignore
-- 
2.43.0

