From 0799a53c09fb7babe0d1c612e0320dfe7daa85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 01/38] fix: terminated string size after unpack_from at an
 offset

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9073e1f..87998f6 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -227,7 +227,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 end += 1
         except IndexError:
             raise ValueError('unterminated string.') from None
-        self.size = end + 1
+        self.size = end + 1 - offset
         return (bytes(buffer[offset:end]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
-- 
2.43.0


From c4d3df988e1e99e6b020d80266ffcd8e315916e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 02/38] fix: do not add a second terminator to terminated
 strings

---
 structured/serializers/strings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 87998f6..e221ab9 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -196,9 +196,9 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def _st_data(self, values: tuple[bytes]) -> tuple[StructSerializer, bytes]:
         """Common packing logic."""
         raw_data = values[0]
-        if not raw_data or raw_data[-1] != self.terminator:
+        if raw_data[-1:] != self.terminator:
             # Insert terminator if needed
-            raw_data += self.terminator
+            raw_data = raw_data + self.terminator
         count = len(raw_data)
         self.size = count
         return _single_char @ count, raw_data
-- 
2.43.0


From 110e4f366561818d54b79a06e4ac14bcf75c2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 03/38] fix: terminated string position after a short stream
 read

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index e221ab9..543553e 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -239,7 +239,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 offset = chunk.find(self.terminator)
                 if offset == -1:
                     out.write(chunk)
-                    size += READ_SIZE
+                    size += len(chunk)
                 else:
                     out.write(chunk[:offset])
                     size += offset + 1
-- 
2.43.0


From 69bd5deecd36926c7df4d0d6979f27949563a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 04/38] fix: zero length char, pascal and pad

---
 structured/serializers/structs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bac49aa..5028adf 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -188,6 +188,10 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         if not isinstance(other, int):
             return NotImplemented
         elif other == 0:
+            if combine_strings:
+                # An empty string is still a value, unlike zero copies of one
+                byte_order, fmt = self._split_format
+                return type(self)('0' + fmt.lstrip('0123456789'), byte_order)
             return NullSerializer()
         elif other < 0:
             raise ValueError('count must be non-negative')
-- 
2.43.0


From e39815e7242bcd1e7adc0ecaca50aa4bc26364e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 05/38] fix: reject truncated length-prefixed strings

---
 structured/serializers/strings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 543553e..e96865d 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -28,7 +28,6 @@ from ..type_checking import (
     Union,
     Unpack,
     WritableBuffer,
-    cast,
 )
 from .api import Serializer
 from .structs import StructSerializer
@@ -112,7 +111,8 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        return (bytes(buffer[self.st.size : self.size]),)
+        st = _single_char @ count
+        return st.unpack(buffer[self.st.size :])
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
@@ -315,7 +315,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (cast(bytes, buffer[size : size + count]),)
+        return struct.unpack_from(f'{count}s', buffer, size)
 
     def unpack_from(
         self,
@@ -343,7 +343,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (readable.read(count),)
+        return struct.unpack(f'{count}s', readable.read(count))
 
 
 Encoder = Callable[[str], bytes]
-- 
2.43.0


From 8034b96296390356f9d6a83bba530902eb8e1ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 06/38] fix: packing a read-to-end string into a too small
 buffer resized it

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index e96865d..3d2caa1 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -160,7 +160,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     ) -> None:
         data = values[0]
         self.size = len(data)
-        buffer[offset : offset + self.size] = data
+        struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
-- 
2.43.0


From 0a6f4c86f269f7f6cbf4987e583e88b2d95e1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 07/38] fix: read-to-end strings unpack to bytes, not to the
 input buffer

---
 structured/serializers/strings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 3d2caa1..18867d2 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -169,11 +169,12 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-        return (buffer,)
+        return (bytes(buffer),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
-        self.size = len(buffer) - offset
-        return (buffer[offset:],)
+        data = bytes(buffer[offset:])
+        self.size = len(data)
+        return (data,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
-- 
2.43.0


From 079ae6525019dfdac02334394b44837aaa1f43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 08/38] fix: number of values of dynamic arrays of basic types

---
 structured/serializers/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index e840cbc..aa77ef3 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -235,7 +235,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         self.count_serializer = count_serializer
         self.item_serializer = item_serializer
-        self.num_values = 0
+        self.num_values = 1
         self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
-- 
2.43.0


From e15386eb4ae05ca95056a78e8b2940dec2cc9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 09/38] fix: no alignment padding between array count and
 items, as in unpacking

---
 structured/serializers/arrays.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index aa77ef3..a2b9f9c 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -245,30 +245,25 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         )
 
     def _packer(self, values: tuple[list[T]]) -> tuple[Serializer, list[T]]:
+        # The items are not joined with the count, to not align them on it
         items = values[0]
-        count = len(items)
-        if count == 0:
-            # Since we'll be modifying its .num_values, we want a copy
-            serializer = StructSerializer(self.count_serializer.format)
-        else:
-            serializer = self.count_serializer + (self.item_serializer * count)
-        serializer.num_values -= 1
-        self.size = serializer.size
+        serializer = self.item_serializer * len(items)
+        self.size = self.count_serializer.size + serializer.size
         return serializer, items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return serializer.pack(serializer.num_values, *items)
+        return self.count_serializer.pack(len(items)) + serializer.pack(*items)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_into(buffer, offset, serializer.num_values, *items)
+        serializer.pack_into(buffer, offset + self.count_serializer.size, *items)
+        self.count_serializer.pack_into(buffer, offset, len(items))
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
-        serializer, items = self._packer(values)
-        serializer.pack_write(writable, serializer.num_values, *items)
+        writable.write(self.pack(*values))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
-- 
2.43.0


From 8c6a3afda63281c187189eeebae89bab22409a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 10/38] fix: array data size was ignored for basic item types

---
 structured/hint_types/arrays.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5021869..02ee042 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -107,6 +107,7 @@ class array(Generic[S, T], list[T], requires_indexing):
         if (
             isinstance(item_serializer, StructSerializer)
             and item_serializer.num_values == 1
+            and header.data_size is None
         ):
             if isinstance(header.count, int):
                 return Annotated[
-- 
2.43.0


From bbd4b7d305411b8866edfb3b9e5f1bbfb4d4b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 11/38] fix: conditional fields of any serializable type, with
 any truth value

---
 structured/serializers/conditional.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index fc6299f..fa53b25 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -48,6 +48,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
             False: SkipSerializer(default),
         }
         self.num_values = serializer.num_values
+        self._active: Serializer[Unpack[Ts]] = serializer
         if serializer.num_values != len(default):
             expected = len(default)
             raise ValueError(
@@ -64,10 +65,19 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[self.condition(partial_object)]
+        self._active = self._select(partial_object).prepack(partial_object)
+        return self._active
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.prepack(partial_object)
+        self._active = self._select(partial_object).preunpack(partial_object)
+        return self._active
+
+    def _select(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
+        return self.serializers[bool(self.condition(partial_object))]
+
+    @property
+    def size(self) -> int:
+        return self._active.size
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From 3351ab542afb28b6bf70e3d46a73436a459ef181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 12/38] fix: tuples of variable size members unpacked to a
 generator

---
 structured/serializers/tuples.py | 35 +++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ff231bb..68bb73f 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -28,40 +28,51 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
+        self.size = 0
 
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
-        return self.serializer.prepack(self._partial_obj).pack(*values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
-        self.serializer.prepack(self._partial_obj).pack_into(buffer, offset, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
-        self.serializer.prepack(self._partial_obj).pack_write(writable, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
 
     def preunpack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
-        return (
-            self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
-        )
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack_read(readable),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return (values,)
-- 
2.43.0


From 5f48f808586bbdc7ab901ca0f4ddddd9976910a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 13/38] fix: byte order of the length of unicode strings

---
 structured/serializers/strings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 18867d2..86fca5a 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -370,6 +370,10 @@ class UnicodeSerializer(Serializer[str]):
         self.encoder = encoder
         self.decoder = decoder
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        serializer = self.serializer.with_byte_order(byte_order)
+        return type(self)(serializer, self.encoder, self.decoder)
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-- 
2.43.0


From e18b933b06734c0926f2b0f5c660eb27c0a30f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 14/38] fix: byte order of tuple members

---
 structured/serializers/tuples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 68bb73f..a07b107 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -7,7 +7,7 @@ __all__ = [
     'TupleSerializer',
 ]
 
-
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -16,6 +16,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     Ts,
     Unpack,
     WritableBuffer,
@@ -30,6 +31,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self.serializer = sum(serializers, NullSerializer())
         self.size = 0
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)((self.serializer.with_byte_order(byte_order),))
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-- 
2.43.0


From 4757f8d890230cb6a090ba103ed62cfec4d81009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 15/38] fix: byte order of union members and of the read-ahead
 value

---
 structured/serializers/unions.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 21b29cc..88fff34 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -12,7 +12,9 @@ __all__ = [
 ]
 
 import os
+from copy import copy
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -21,6 +23,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     WritableBuffer,
     annotated,
     get_union_args,
@@ -53,6 +56,16 @@ class AUnion(Serializer):
         }
         self.size = 0
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        new = copy(self)
+        new.result_map = {
+            key: serializer.with_byte_order(byte_order)
+            for key, serializer in self.result_map.items()
+        }
+        if self.default is not None:
+            new.default = self.default.with_byte_order(byte_order)
+        return new
+
     def get_final(self) -> Optional[Serializer]:
         for serializer in self.result_map.values():
             if serializer.is_final():
@@ -190,6 +203,13 @@ class LookaheadDecider(AUnion):
             )
         self.read_ahead_serializer = serializer
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        new = super().with_byte_order(byte_order)
+        new.read_ahead_serializer = self.read_ahead_serializer.with_byte_order(
+            byte_order
+        )
+        return new
+
     def pack(self, *values: Any) -> bytes:
         result = self.decider(self._partial_object)
         serializer = self.get_serializer(result, True)
-- 
2.43.0


From 04df57a09cfa2f9d7550d74304e858efc4eef190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 16/38] fix: read-to-end default of a union must be the last
 field

---
 structured/serializers/unions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 88fff34..fd632c8 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -70,6 +70,8 @@ class AUnion(Serializer):
         for serializer in self.result_map.values():
             if serializer.is_final():
                 return serializer.get_final()
+        if self.default is not None:
+            return self.default.get_final()
 
     @staticmethod
     def validate_serializer(hint) -> Serializer:
-- 
2.43.0


From 8336caf9b887c46fab82965ab99adb51c53d30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 17/38] fix: prepare the read-ahead serializer of a union for
 unpacking

---
 structured/serializers/unions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index fd632c8..2a8b56c 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -232,22 +232,25 @@ class LookaheadDecider(AUnion):
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
-        readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_read(readable))[0]
+        readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_read(readable)
         self.size = serializer.size
-- 
2.43.0


From 2ff794537153bb44e71bf28394e6caecc0207361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 18/38] fix: Self fields when unpacking into an object or next
 to a field named cls

---
 structured/serializers/self.py | 4 +++-
 structured/structured.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/self.py b/structured/serializers/self.py
index b611367..06e4b4c 100644
--- a/structured/serializers/self.py
+++ b/structured/serializers/self.py
@@ -25,7 +25,9 @@ class SelfSerializer(Serializer[Structured]):
         return StructuredSerializer(type(partial_object))
 
     def preunpack(self, partial_object: _Proxy) -> Serializer:
-        return StructuredSerializer(partial_object.cls)
+        # A proxy when creating an object, or the existing object to unpack into
+        cls = getattr(partial_object, '__proxied_class__', type(partial_object))
+        return StructuredSerializer(cls)
 
     @classmethod
     def _transform(cls, base_type: Any, hint: Any) -> Any:
diff --git a/structured/structured.py b/structured/structured.py
index bd9038f..012298d 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -474,7 +474,7 @@ class _Proxy:
     # is a proxy for won't be shadowed.
     def __init__(self, cls: type[Structured]) -> None:
         self.__attrs = cls.attrs
-        self.cls = cls
+        self.__proxied_class__ = cls
 
     def __call__(self, values: Iterable[Any]) -> None:
         for attr, value in zips(self.__attrs, values, strict=True):
-- 
2.43.0


From 0518b10a5c97fb174196c2be2b51d094bc5fd203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 19/38] fix: joining struct formats dropped the rest of the
 second format

---
 structured/serializers/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 5028adf..520b531 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -56,7 +56,7 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
-_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
+_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*)$')
 
 
 def fold_overlaps(format1: str, format2: str, combine_strings: bool = False) -> str:
-- 
2.43.0


From ba203b4c2538918ab4e69d8e826ae2de69173056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 20/38] fix: default offset of unpack_from for all serializers

---
 structured/serializers/arrays.py  | 6 +++---
 structured/serializers/structs.py | 2 +-
 structured/serializers/tuples.py  | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index a2b9f9c..736b472 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -147,7 +147,7 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size
         return (items,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
@@ -216,7 +216,7 @@ class StaticStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         return (list(self.serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         return (list(self.serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
@@ -273,7 +273,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size + serializer.size
         return (list(items),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
         serializer = self.item_serializer * count
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 520b531..3d01c4f 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -247,7 +247,7 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         )  # type: ignore
 
     def unpack_from(
-        self, buffer: ReadableBuffer, offset: int = ...
+        self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Unpack[Ts]]:
         return tuple(
             action(value)
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index a07b107..360b2fd 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -69,7 +69,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self.size = serializer.size
         return (values,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
+    def unpack_from(
+        self, buffer: ReadableBuffer, offset: int = 0
+    ) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
         values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
-- 
2.43.0


From 3eca8bae8aab6f73f49a2b90ae6f27e62bc33def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 21/38] fix: array items after one containing the same class
 saw the wrong object

---
 structured/serializers/arrays.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 736b472..463213e 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -108,8 +108,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         data = [b'']
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in values[0]:
+            item_serializer = self.item_serializer.prepack(partial_object)
             data.append(item_serializer.pack(item))
             size += item_serializer.size
         header_values = self._header_pack_values(values[0], size - header_size)
@@ -122,8 +123,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         items = values[0]
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in items:
+            item_serializer = self.item_serializer.prepack(partial_object)
             item_serializer.pack_into(buffer, offset + size, item)
             size += item_serializer.size
         header_values = self._header_pack_values(items, size - header_size)
@@ -138,9 +140,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack(buffer)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack(buffer[size:]))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -151,9 +154,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_from(buffer, offset + size))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -164,9 +168,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_read(readable)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_read(readable))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
-- 
2.43.0


From 50903bb896946dc35211480f190e3d6126e7b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 22/38] fix: joining custom type serializers ignored their byte
 order

---
 structured/serializers/structs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 3d01c4f..c22bb2b 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -284,7 +284,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return super().__add__(other)
         byte_order, lfmt = self._split_format
-        _, rfmt = other._split_format
+        byte_order2, rfmt = other._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{self} + {other}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(self.actions, actions))
         return type(self)(fmt, byte_order, actions)
@@ -297,7 +302,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return NotImplemented
         byte_order, lfmt = other._split_format
-        _, rfmt = self._split_format
+        byte_order2, rfmt = self._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{other} + {self}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(actions, self.actions))
         return type(self)(fmt, byte_order, actions)  # type: ignore
-- 
2.43.0


From 292fd4c516d7ad1a96f9d1ed847975735a229bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 23/38] fix: packing length-prefixed strings in a class with a
 byte order

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 86fca5a..5a2ac17 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -70,7 +70,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         raw_data = values[0]
         count = len(raw_data)
-        st = self.st + _single_char @ count
+        st = self.st + _single_char.with_byte_order(self.st.byte_order) @ count
         self.size = st.size
         return st, count, raw_data
 
-- 
2.43.0


From 932cf34156b853ccc64d30472f42be052d973f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 24/38] fix: a corrupt string length was rejected only after
 building its format

---
 structured/serializers/strings.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 5a2ac17..09589bf 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -111,8 +111,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        st = _single_char @ count
-        return st.unpack(buffer[self.st.size :])
+        return struct.unpack_from(f'{count}s', buffer, self.st.size)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
@@ -125,8 +124,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack_from(buffer, offset)[0]
         self.size = self.st.size + count
-        st = _single_char @ count
-        return st.unpack_from(buffer, offset + self.st.size)
+        return struct.unpack_from(f'{count}s', buffer, offset + self.st.size)
 
     def unpack_read(self, readable: BinaryIO) -> tuple:
         """Unpack a dynamically sized bytestring from a file-like object.
@@ -136,8 +134,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack_read(readable)[0]
         self.size = self.st.size + count
-        st = _single_char @ count
-        return st.unpack_read(readable)
+        return struct.unpack(f'{count}s', readable.read(count))
 
 
 class ConsumingCharSerializer(Serializer[bytes]):
-- 
2.43.0


From fa321115266d1b0f7d622f8e3075df75cb99d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 25/38] fix: partially specialized generic hints could not be
 specialized further

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 0f0f520..3afa8a5 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -106,7 +106,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
                 # subclassing of the containing class.
-                return StructuredAlias(base_type, spec_args)
+                return StructuredAlias(origin, spec_args)
 
 
 annotated.register_transform(StructuredSerializer._transform)
-- 
2.43.0


From 1472c5a5aa46e09d0671070a29871e2332ec20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:12 +0000
Subject: [PATCH 26/38] fix: hints with type variables nested in tuples, arrays
 and generics were dropped or refused

---
 structured/hint_types/arrays.py      |  9 ++++++---
 structured/hint_types/tuples.py      |  3 ++-
 structured/serializers/structured.py |  6 +++---
 structured/utils.py                  | 15 ++++++++++++++-
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 02ee042..65f2961 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -21,7 +21,7 @@ from ..serializers import (
     StructSerializer,
 )
 from ..type_checking import Annotated, Generic, Optional, S, Self, T, TypeVar, annotated
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, generic_arg
 from .basic_types import _SizeTypes
 
 
@@ -90,8 +90,11 @@ class array(Generic[S, T], list[T], requires_indexing):
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
         header, item_type = args
         # TypeVar checks
-        if isinstance(header, StructuredAlias) or isinstance(item_type, TypeVar):
-            return StructuredAlias(cls, (header, item_type))  # type: ignore
+        item_arg = generic_arg(item_type)
+        if isinstance(header, StructuredAlias) or isinstance(
+            item_arg, (TypeVar, StructuredAlias)
+        ):
+            return StructuredAlias(cls, (header, item_arg))  # type: ignore
         elif not isinstance(header, Header):
             raise TypeError(f'invalid array header type: {header!r}')
         # Item type checks
diff --git a/structured/hint_types/tuples.py b/structured/hint_types/tuples.py
index b28f4dd..12e19f7 100644
--- a/structured/hint_types/tuples.py
+++ b/structured/hint_types/tuples.py
@@ -4,12 +4,13 @@ Provides transformations for tuple type hints into serializers.
 
 from ..serializers import Serializer, TupleSerializer
 from ..type_checking import Any, Tuple, TypeVar, annotated, get_tuple_args, istuple
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, generic_arg
 
 
 def transform_tuple(base_type: Any, hint: Any) -> Any:
     if istuple(base_type):
         if tuple_args := get_tuple_args(base_type):
+            tuple_args = tuple(generic_arg(arg) for arg in tuple_args)
             if any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in tuple_args):
                 return StructuredAlias(Tuple, tuple_args)
             serializers = [annotated.transform(x) for x in tuple_args]
diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 3afa8a5..b8e03b5 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -21,7 +21,7 @@ from ..type_checking import (
     get_origin,
     safe_issubclass,
 )
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, generic_arg
 from .api import Serializer
 
 if TYPE_CHECKING:
@@ -87,9 +87,9 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
         if safe_issubclass(base_type, Structured):
             return StructuredSerializer(base_type)
         elif safe_issubclass((origin := get_origin(base_type)), Structured):
-            spec_args = get_args(base_type)
+            spec_args = tuple(generic_arg(arg) for arg in get_args(base_type))
             key = (origin, spec_args)
-            if all(not isinstance(arg, TypeVar) for arg in spec_args):
+            if not any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in spec_args):
                 # Fully specialized, first try the cache
                 try:
                     return cls._specializations[key]
diff --git a/structured/utils.py b/structured/utils.py
index ad88a0a..8a84760 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -7,7 +7,7 @@ import sys
 import warnings
 from functools import wraps
 
-from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar
+from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar, annotated
 
 if sys.version_info < (3, 10):
     from typing import overload
@@ -102,6 +102,19 @@ class StructuredAlias:
             return self.cls[resolved]  # type: ignore
 
 
+def generic_arg(arg: Any) -> Any:
+    """Get the form of a type argument which can be resolved later.
+
+    :param arg: An argument of a tuple, array, or generic Structured type-hint.
+    :return: A TypeVar or StructuredAlias if the argument depends on any
+        TypeVars, otherwise the argument unchanged.
+    """
+    transformed = annotated.transform(arg)
+    if isinstance(transformed, (TypeVar, StructuredAlias)):
+        return transformed
+    return arg
+
+
 # nice deprecation warnings, ideas taken from Trio
 class StructuredDeprecationWarning(FutureWarning):
     """Warning emitted if you use deprecated Structured functionality. This
-- 
2.43.0


From f3637056abfea1af771e3f487d50293ca27e3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 27/38] fix: generic classes with a byte order could not be
 used as specialized hints

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index b8e03b5..06b6fe9 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,7 +96,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type):
+                class _Specialized(base_type, byte_order=origin.byte_order):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
-- 
2.43.0


From 8bfab9d2ba9ba3a869a5e46bf38045f901ee6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 28/38] fix: fields overridden in a subclass of a generic class
 kept the base's type

---
 structured/structured.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 012298d..30d5c5d 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -384,6 +384,8 @@ class Structured(metaclass=StructuredMeta):
             orig_base = base_to_origbase.get(base, None)
             if orig_base:
                 annotations = base._get_specialization_hints(*get_args(orig_base))
+                # Hints on the class itself override those of the generic base
+                annotations |= get_annotations(cls)
                 update_annotations(cls, annotations)
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
@@ -460,7 +462,13 @@ class Structured(metaclass=StructuredMeta):
             args = get_args(alias)
             args = (tvar_map.get(arg, arg) for arg in args)
             super_annotations = base._get_specialization_hints(*args)
-            all_annotations.append(super_annotations)
+            all_annotations.append(
+                {
+                    attr: hint
+                    for attr, hint in super_annotations.items()
+                    if attr not in cls_annotations
+                }
+            )
         return reduce(operator.or_, reversed(all_annotations))
 
 
-- 
2.43.0


From 60dcb09fb8dad0744aad9ac545d1a47aacf8dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 29/38] fix: implicitly generic subclasses could not be
 specialized

---
 structured/structured.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 30d5c5d..e769904 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -22,7 +22,6 @@ from .type_checking import (
     BinaryIO,
     Callable,
     ClassVar,
-    Generic,
     Iterable,
     Iterator,
     Optional,
@@ -429,11 +428,10 @@ class Structured(metaclass=StructuredMeta):
         to be specialized with `args`,
         """
         supers: dict[type[Structured], Any] = {}
-        tvars = ()
+        # Classes may be generic without directly deriving from Generic[...]
+        tvars = getattr(cls, '__parameters__', ())
         for base in getattr(cls, '__orig_bases__', ()):
-            if (origin := get_origin(base)) is Generic:
-                tvars = get_args(base)
-            elif origin and issubclass(origin, Structured):
+            if (origin := get_origin(base)) and issubclass(origin, Structured):
                 supers[origin] = base
         tvar_map = dict(zip(tvars, args))
         if not tvar_map:
-- 
2.43.0


From 89a011a6e99f9827da59caabce104cee65c8f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 30/38] fix: pads named _ did not all count with postponed
 annotations

---
 structured/structured.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index e769904..d03f10a 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -174,7 +174,15 @@ class MetaDict(dict):
     _unique_id: ClassVar[Iterator[int]] = count()
 
     def __setitem__(self, key, value):
-        if key == '_' and ispad(value):
+        hint = value
+        if key == '_' and isinstance(hint, str):
+            # Postponed annotation: evaluate in the class body setting it
+            frame = sys._getframe(1)
+            try:
+                hint = eval(hint, frame.f_globals, frame.f_locals)
+            except Exception:
+                pass
+        if key == '_' and ispad(hint):
             # Generate a unique name, we'll use ones that are invalid attribute
             # names so they won't accidentally overwrite anything a use sets.
             key = f'{next(self._unique_id)}_pad_'
-- 
2.43.0


From 66a5f1fec1c48c9a0c12472d0fcc577be13f5bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 31/38] fix: pads with a Condition counted as attributes

---
 structured/structured.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index d03f10a..66ac03c 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -16,7 +16,12 @@ from functools import reduce
 from itertools import count
 
 from .base_types import ByteOrder, ByteOrderMode
-from .serializers import NullSerializer, Serializer, StructSerializer
+from .serializers import (
+    ConditionalSerializer,
+    NullSerializer,
+    Serializer,
+    StructSerializer,
+)
 from .type_checking import (
     Any,
     BinaryIO,
@@ -43,8 +48,10 @@ from .utils import StructuredAlias, attrgetter, zips
 
 
 def ispad(annotation: Any) -> bool:
-    """Detect pad[x] generated StructSerializers."""
+    """Detect pad[x] generated StructSerializers, possibly with a Condition."""
     serializer = annotated.transform(annotation)
+    if isinstance(serializer, ConditionalSerializer):
+        serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
         and serializer.num_values == 0
-- 
2.43.0


From f0d959825f50f126eb01ed0acc1bcdeda260bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 32/38] fix: keep value conversions when folding an action
 serializer with @

---
 structured/serializers/structs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index c22bb2b..39e2b2a 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -317,6 +317,13 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         res.actions = tuple(chain.from_iterable(repeat(self.actions, other)))
         return res
 
+    def __matmul__(self, other: int) -> StructActionSerializer:
+        res = super().__matmul__(other)
+        if self.num_values and isinstance(res, StructActionSerializer):
+            count = res.num_values // self.num_values
+            res.actions = tuple(chain.from_iterable(repeat(self.actions, count)))
+        return res
+
     def __eq__(self, other: StructSerializer) -> bool:
         if isinstance(other, StructActionSerializer):
             return self.format == other.format and self.actions == other.actions
-- 
2.43.0


From 44f93c96785c7e2fb5769f76e599d727c7afe8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 33/38] fix: size of unions whose member unpacks lazily

A serializer may return any iterable from its unpack methods, and its
size is only up to date once the values have been taken from it.
---
 structured/serializers/unions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 2a8b56c..1b0209b 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -164,19 +164,19 @@ class LookbackDecider(AUnion):
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack(buffer)
+        value = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return value
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_from(buffer, offset)
+        value = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return value
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_read(readable)
+        value = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return value
 
@@ -235,7 +235,7 @@ class LookaheadDecider(AUnion):
         read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
         result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack(buffer)
+        values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
@@ -243,7 +243,7 @@ class LookaheadDecider(AUnion):
         read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_from(buffer, offset)
+        values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
@@ -252,6 +252,6 @@ class LookaheadDecider(AUnion):
         result = tuple(read_ahead.unpack_read(readable))[0]
         readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_read(readable)
+        values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return values
-- 
2.43.0


From 594dd0809ae3d482324148b37a49b0396204084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 34/38] fix: do not take a cached hint for one made of an equal
 argument of another type

---
 structured/hint_types/arrays.py  | 4 ++--
 structured/hint_types/strings.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 65f2961..f934bf0 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -9,7 +9,7 @@ __all__ = [
     'Header',
 ]
 
-from functools import cache
+from functools import cache, lru_cache
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -52,7 +52,7 @@ class Header:
         return cls._create(length_kind, size_kind)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         length_kind: int | TypeVar | StructSerializer[int],
diff --git a/structured/hint_types/strings.py b/structured/hint_types/strings.py
index 8abc533..d8a1a96 100644
--- a/structured/hint_types/strings.py
+++ b/structured/hint_types/strings.py
@@ -13,7 +13,7 @@ __all__ = [
 ]
 
 import math
-from functools import cache, partial
+from functools import lru_cache, partial
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -58,7 +58,7 @@ class char(bytes, requires_indexing):
         return cls._create(*args)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
@@ -143,7 +143,7 @@ class unicode(str, requires_indexing):
         return cls._create(count, encoding)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
-- 
2.43.0


From 4f085de4850f12b9fcf34fa4ea4d5193e163cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 35/38] fix: keep a class's own initializer when a
 specialization is made of it

---
 structured/serializers/structured.py | 6 +++++-
 structured/structured.py             | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 06b6fe9..eb2f871 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,7 +96,11 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type, byte_order=origin.byte_order):
+                class _Specialized(
+                    base_type,
+                    byte_order=origin.byte_order,
+                    init=origin._generate_init,
+                ):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
diff --git a/structured/structured.py b/structured/structured.py
index 66ac03c..03b6331 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -217,6 +217,7 @@ class Structured(metaclass=StructuredMeta):
     attrs: ClassVar[tuple[str, ...]] = ()
     _attrgetter: ClassVar[Callable[[Structured], tuple[Any, ...]]]
     byte_order: ClassVar[ByteOrder] = ByteOrder.DEFAULT
+    _generate_init: ClassVar[bool] = True
 
     def __post_init__(self) -> None:
         """Initialize any instance variables not handled by the Structured
@@ -433,6 +434,7 @@ class Structured(metaclass=StructuredMeta):
         cls.attrs = attrs
         cls._attrgetter = attrgetter(*attrs)
         cls.byte_order = byte_order
+        cls._generate_init = init
 
     @classmethod
     def _get_specialization_hints(
-- 
2.43.0


From e6efa5db6214c353ebbe1b310b5281fb3d67ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 36/38] fix: resolve offsets counted from the end of the buffer
 before using them

---
 structured/structured.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/structured/structured.py b/structured/structured.py
index 03b6331..3c3f69d 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -12,6 +12,7 @@ __all__ = [
 ]
 
 import operator
+import struct
 from functools import reduce
 from itertools import count
 
@@ -123,6 +124,20 @@ def get_structured_base(cls: type[Structured]) -> Optional[type[Structured]]:
         return None
 
 
+def absolute_offset(buffer: ReadableBuffer, offset: int) -> int:
+    """Resolve an offset that, as for the struct module, may be relative to the
+    end of the buffer.  Left as is, parts of the data could end up on either end
+    of the buffer.
+    """
+    if offset < 0:
+        with memoryview(buffer) as view:
+            size = view.nbytes
+        if offset + size < 0:
+            raise struct.error(f'offset {offset} out of range for {size}-byte buffer')
+        offset += size
+    return offset
+
+
 def gen_init(
     args: dict[str, Any],
     *,
@@ -269,6 +284,7 @@ class Structured(metaclass=StructuredMeta):
         :param buffer: buffer to unpack from.
         :param offset: position in the buffer to start from.
         """
+        offset = absolute_offset(buffer, offset)
         for attr, value in zips(
             self.attrs, self._serializer(False).unpack_from(buffer, offset), strict=True
         ):
@@ -293,6 +309,7 @@ class Structured(metaclass=StructuredMeta):
         :param stream: buffer to pack into.
         :param offset: position in the buffer to start writing data to.
         """
+        offset = absolute_offset(buffer, offset)
         self._serializer(True).pack_into(buffer, offset, *type(self)._attrgetter(self))
 
     # Creation of objects from unpackable types
@@ -325,6 +342,7 @@ class Structured(metaclass=StructuredMeta):
         :param offset: Location in the buffer to begin unpacking.
         :return: A new Structured object unpacked from the buffer.
         """
+        offset = absolute_offset(buffer, offset)
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_from(buffer, offset))
         return cls(*proxy)
-- 
2.43.0


From 1d25f48fb3f54355b259f766396da7d3dd926ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 37/38] fix: only take None for the absence of a union default

---
 structured/serializers/unions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 1b0209b..e169ba4 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -49,7 +49,7 @@ class AUnion(Serializer):
         an unmapped value, or an `Annotated` instance with a Serializer as an
         extra argument.
         """
-        self.default = None if not default else self.validate_serializer(default)
+        self.default = None if default is None else self.validate_serializer(default)
         self.result_map = {
             key: self.validate_serializer(serializer)
             for key, serializer in result_map.items()
-- 
2.43.0


From 3e3edd41235d68563ef9adeec05f36d30f70c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 38/38] fix: allow hints with unhashable parts as array items,
 generic arguments and encodings

---
 structured/hint_types/arrays.py      |  8 +++-----
 structured/hint_types/strings.py     |  8 ++++----
 structured/serializers/structured.py |  8 ++++++--
 structured/utils.py                  | 21 ++++++++++++++++++++-
 4 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index f934bf0..7341c16 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -9,8 +9,6 @@ __all__ = [
     'Header',
 ]
 
-from functools import cache, lru_cache
-
 from ..base_types import requires_indexing
 from ..serializers import (
     ArraySerializer,
@@ -21,7 +19,7 @@ from ..serializers import (
     StructSerializer,
 )
 from ..type_checking import Annotated, Generic, Optional, S, Self, T, TypeVar, annotated
-from ..utils import StructuredAlias, generic_arg
+from ..utils import StructuredAlias, generic_arg, hint_cache
 from .basic_types import _SizeTypes
 
 
@@ -52,7 +50,7 @@ class Header:
         return cls._create(length_kind, size_kind)
 
     @classmethod
-    @lru_cache(maxsize=None, typed=True)
+    @hint_cache
     def _create(
         cls,
         length_kind: int | TypeVar | StructSerializer[int],
@@ -84,7 +82,7 @@ class array(Generic[S, T], list[T], requires_indexing):
     """Dispatching class used for typehinting to create ArraySerializers"""
 
     @classmethod
-    @cache
+    @hint_cache
     def __class_getitem__(cls, args) -> type[list[T]]:
         if not isinstance(args, tuple) or len(args) != 2:
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
diff --git a/structured/hint_types/strings.py b/structured/hint_types/strings.py
index d8a1a96..8e4e068 100644
--- a/structured/hint_types/strings.py
+++ b/structured/hint_types/strings.py
@@ -13,7 +13,7 @@ __all__ = [
 ]
 
 import math
-from functools import lru_cache, partial
+from functools import partial
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -27,7 +27,7 @@ from ..serializers import (
     static_char_serializer,
 )
 from ..type_checking import Annotated, TypeVar, Union, annotated, cast
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, hint_cache
 from .basic_types import _SizeTypes, _TSize
 
 
@@ -58,7 +58,7 @@ class char(bytes, requires_indexing):
         return cls._create(*args)
 
     @classmethod
-    @lru_cache(maxsize=None, typed=True)
+    @hint_cache
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
@@ -143,7 +143,7 @@ class unicode(str, requires_indexing):
         return cls._create(count, encoding)
 
     @classmethod
-    @lru_cache(maxsize=None, typed=True)
+    @hint_cache
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index eb2f871..9bdc74a 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -93,7 +93,8 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Fully specialized, first try the cache
                 try:
                     return cls._specializations[key]
-                except KeyError:
+                except (KeyError, TypeError):
+                    # Not there yet, or not hashable
                     pass
 
                 class _Specialized(
@@ -104,7 +105,10 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
-                cls._specializations[key] = StructuredSerializer(_Specialized)
+                try:
+                    cls._specializations[key] = StructuredSerializer(_Specialized)
+                except TypeError:
+                    pass
                 return serializer
             else:
                 # Not fully specialized, return a StructuredAlias so it
diff --git a/structured/utils.py b/structured/utils.py
index 8a84760..dedce1a 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -5,7 +5,7 @@ Various utility methods.
 import operator
 import sys
 import warnings
-from functools import wraps
+from functools import lru_cache, wraps
 
 from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar, annotated
 
@@ -64,6 +64,25 @@ def attrgetter(*attr_names: str) -> Callable[[Any], tuple[Any, ...]]:
         return _get
 
 
+def hint_cache(fn: Callable[..., T]) -> Callable[..., T]:
+    """Cache a type-hint factory on its arguments and their types.  Type-hints
+    made of something unhashable (for example a serializer or encoder which is a
+    dataclass) are made anew each time.
+    """
+    cached = lru_cache(maxsize=None, typed=True)(fn)
+
+    @wraps(fn)
+    def wrapper(*args: Any) -> T:
+        try:
+            return cached(*args)
+        except TypeError:
+            # Not hashable, or an error of the factory which it then raises again
+            pass
+        return fn(*args)
+
+    return wrapper
+
+
 class StructuredAlias:
     """Class to hold one of the structured types that takes types as arguments,
     which has been passes either another StructuredAlias or a TypeVar.
-- 
2.43.0

