From 2ddf39773420b9e1429c99ffceaf0008afa152c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 001/100] fix: Dict.replace() refuses a new key which is
 already used

---
 hachoir/core/dict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index c55e3f4..bc113eb 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -120,6 +120,9 @@ class Dict(object):
         {'two': 'deux', 'three': 4}
         """
         index = self._index[oldkey]
+        if oldkey != newkey and newkey in self._index:
+            raise UniqKeyError("Replace error: key '%s' already exists"
+                               % newkey)
         self._value_list[index] = new_value
         if oldkey != newkey:
             del self._index[oldkey]
-- 
2.43.0


From 1e09613a26449d020fe0b7fd33ea789554042ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 002/100] fix: sub-streams stay inside their own window

Reading past the end of a sub-stream returned data of the parent stream, a
sub-stream longer than its parent reported a size it cannot deliver, and a
sub-stream without size on a stream of unknown size raised TypeError.
---
 hachoir/stream/input.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e5fc16d..4495cfc 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -472,9 +472,11 @@ class InputSubStream(InputStream):
     def __init__(self, stream, offset, size=None, source=None, **args):
         if offset is None:
             offset = 0
-        if size is None and stream.size is not None:
-            size = stream.size - offset
-        if size <= 0:
+        if stream.size is not None:
+            available = stream.size - offset
+            if size is None or available < size:
+                size = available
+        if size is not None and size <= 0:
             raise ValueError("InputSubStream: offset is outside input stream")
         self.stream = stream
         self._offset = offset
@@ -484,13 +486,19 @@ class InputSubStream(InputStream):
         InputStream.__init__(self, source=source, size=size, **args)
         self.stream.askSize(self)
 
-    _current_size = property(lambda self: min(
-        self._size, max(0, self.stream._current_size - self._offset)))
+    def __current_size(self):
+        size = max(0, self.stream._current_size - self._offset)
+        if self._size is not None:
+            size = min(self._size, size)
+        return size
+    _current_size = property(__current_size)
 
     def close(self):
         self.stream = None
 
     def read(self, address, size):
+        if self._size is not None and self._size < address + size:
+            raise ReadStreamError(size, address)
         return self.stream.read(self._offset + address, size)
 
 
-- 
2.43.0


From 7a7117df6abc9430e980a11a4e7df716976bec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 003/100] fix: accept non-seekable file objects as input

Python 3 file objects raise io.UnsupportedOperation, without errno, when
they cannot seek: pipes were refused instead of being cached.
---
 hachoir/stream/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 4495cfc..7999679 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -5,6 +5,7 @@ from hachoir.core.bits import str2long
 from hachoir.core.tools import lowerBound
 from hachoir.core.tools import alignValue
 from errno import ESPIPE
+from io import UnsupportedOperation
 from weakref import ref as weakref_ref
 from hachoir.stream import StreamError
 
@@ -402,7 +403,8 @@ class InputIOStream(InputStream):
                 input.seek(0, 2)
                 size = input.tell() * 8
             except IOError as err:
-                if err.errno == ESPIPE:
+                if (err.errno == ESPIPE
+                        or isinstance(err, UnsupportedOperation)):
                     input = InputPipe(input, self._setSize)
                 else:
                     source = args.get("source", "<inputio:%r>" % input)
-- 
2.43.0


From 02f263283b289c37d89e70152beaaf90f2328958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 004/100] fix: a stream on a pipe can be closed

---
 hachoir/stream/input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 7999679..d6c438d 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -321,6 +321,10 @@ class InputPipe(object):
         self.buffers = []
         self.set_size = set_size
 
+    def close(self):
+        if hasattr(self._input, "close"):
+            self._input.close()
+
     current_size = property(lambda self: len(self.buffers) << self.buffer_size)
 
     def _append(self, data):
-- 
2.43.0


From ab7949e17f42bef0ebf8ea350ebcec34ecc43b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 005/100] fix: searchBytes() on a stream whose size is not
 known yet

Reaching the end of a pipe while searching raised ReadStreamError, even if
the needle was there; the same search succeeded when repeated.
---
 hachoir/stream/input.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index d6c438d..d5556b0 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -264,11 +264,14 @@ class InputStream(Logger):
                     if todo <= 0:
                         return None
                     size = todo
-            data = self.readBytes(start_address, size)
-            if end_address is None and self._size:
+            data = self.read(start_address, 8 * size)[1]
+            if self._size and (end_address is None
+                               or self._size < end_address):
+                # the end of the stream has just been discovered
                 end_address = self._size
                 size = (end_address - start_address) >> 3
-                assert size > 0
+                if size <= 0:
+                    return None
                 data = data[:size]
             start_address += 8 * size
             buffer = buffer[len(buffer) - length + 1:] + data
-- 
2.43.0


From 04137ca7e1f097a5316bf7f537dc7eb0a1968a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 006/100] fix: the file view of a stream does not disturb the
 stream

InputIOStream.file() duplicated the file descriptor: both descriptors share
one file position, so buffered reads of the stream returned wrong data after
reads of the view.  It also failed on objects without a descriptor, BytesIO
for instance.  Use the generic view, which reads through the stream.
---
 hachoir/stream/input.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index d5556b0..f1e2eb4 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -446,15 +446,6 @@ class InputIOStream(InputStream):
             raise ReadStreamError(8 * size, 8 * address, 8 * got)
         return shift, data, missing
 
-    def file(self):
-        if hasattr(self._input, "fileno"):
-            from os import dup, fdopen
-            new_fd = dup(self._input.fileno())
-            new_file = fdopen(new_fd, "rb")
-            new_file.seek(0)
-            return new_file
-        return InputStream.file(self)
-
 
 class StringInputStream(InputStream):
 
-- 
2.43.0


From 880c9fb2b6886b0a558953229a9a936b8613fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 007/100] fix: positions of the file view of a stream

read(-1) returned nothing, a read after seeking relative to the end of a
stream of unknown size left the position at the end (or lost it if the read
failed), reading everything behind the end failed on an assertion, and
negative positions returned data taken from the end of the stream.
---
 hachoir/stream/input.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index f1e2eb4..4a6f259 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -58,15 +58,19 @@ class FileFromInputStream:
             while self._size is None:
                 self.stream._feed(max(self.stream._current_size << 1, 1 << 16))
             self._from_end = False
-            self._offset += self._size
+            self._offset = max(0, self._offset + self._size)
         return self._offset
 
     def seek(self, pos, whence=0):
         if whence == 0:
+            if pos < 0:
+                raise ValueError("negative seek position %r" % (pos,))
             self._from_end = False
             self._offset = pos
         elif whence == 1:
             self._offset += pos
+            if not self._from_end:
+                self._offset = max(0, self._offset)
         elif whence == 2:
             self._from_end = True
             self._offset = pos
@@ -79,6 +83,8 @@ class FileFromInputStream:
             if shift:
                 raise InputStreamError("TODO: handle non-byte-aligned data")
             return data
+        if size is not None and size < 0:
+            size = None
         if self._size or size is not None and not self._from_end:
             # We don't want self.tell() to read anything
             # and the size must be known if we read until the end.
@@ -98,20 +104,23 @@ class FileFromInputStream:
             if size <= 0:
                 return b''
             data = b'', b''
-            self._offset = max(
+            offset = max(
                 0, self.stream._current_size // 8 + self._offset)
-            self._from_end = False
             bs = max(max_size, 1 << 16)
             while True:
-                d = read(self._offset, bs)
+                d = read(offset, bs)
                 data = data[1], d
-                self._offset += len(d)
+                offset += len(d)
                 if self._size:
-                    bs = self._size - self._offset
+                    bs = self._size - offset
                     if not bs:
                         data = data[0] + data[1]
-                        d = len(data) - max_size
-                        return data[d:d + size]
+                        d = max(0, len(data) - max_size)
+                        offset -= len(data) - d
+                        data = data[d:d + size]
+                        self._from_end = False
+                        self._offset = offset + len(data)
+                        return data
         else:
             # TODO: not tested
             data = []
@@ -122,7 +131,7 @@ class FileFromInputStream:
                 self._offset += len(d)
                 if self._size:
                     size = self._size - self._offset
-                    if not size:
+                    if size <= 0:
                         return b''.join(data)
 
 
-- 
2.43.0


From dc9b3880224d873afebe89260cf694bc0f8ec636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:18 +0000
Subject: [PATCH 008/100] fix: searchBytes() skipped data when a read revealed
 the end of a pipe

The rest of the stream, not what had been read, was taken as searched.
---
 hachoir/stream/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 4a6f259..0bdaecc 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -278,7 +278,7 @@ class InputStream(Logger):
                                or self._size < end_address):
                 # the end of the stream has just been discovered
                 end_address = self._size
-                size = (end_address - start_address) >> 3
+                size = min(size, (end_address - start_address) >> 3)
                 if size <= 0:
                     return None
                 data = data[:size]
-- 
2.43.0


From d7e6a8e771ba310edda6506f0efcee314d9734cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 009/100] fix: OutputStream.writeBit() wrote the bits of a byte
 in reversed order

Except for the last bit of a byte, which was right: writeBit() disagreed
with writeBits() and with InputStream.readBits().
---
 hachoir/stream/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4a9e151..057b56c 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -48,9 +48,9 @@ class OutputStream(object):
         else:
             if state:
                 if endian is BIG_ENDIAN:
-                    self._byte |= (1 << self._bit_pos)
-                else:
                     self._byte |= (1 << (7 - self._bit_pos))
+                else:
+                    self._byte |= (1 << self._bit_pos)
             self._bit_pos += 1
 
     def writeBits(self, count, value, endian):
-- 
2.43.0


From fdedf7152ed7a05c270cc501b70eaea83b2c8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 010/100] fix: OutputStream.writeInteger() writes two's
 complement, refuses what does not fit

Signed values were written with an offset (-1 on 8 bits gave 0x7f) and
values too large produced more bytes than asked.
---
 hachoir/stream/output.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 057b56c..77632e5 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -106,8 +106,15 @@ class OutputStream(object):
             self._byte = 0
 
     def writeInteger(self, value, signed, size_byte, endian):
+        nbits = size_byte * 8
         if signed:
-            value += 1 << (size_byte * 8 - 1)
+            if not (-(1 << nbits - 1) <= value < (1 << nbits - 1)):
+                raise OutputStreamError(
+                    "%s doesn't fit in a signed integer of %s bits" % (value, nbits))
+            value %= 1 << nbits
+        elif not (0 <= value < (1 << nbits)):
+            raise OutputStreamError(
+                "%s doesn't fit in an integer of %s bits" % (value, nbits))
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From 552539217c9812d6b560bc789142fb35239c0b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 011/100] fix: reading back an output stream

StringOutputStream() could not store bytes, readBytes() ignored the address,
and a file which cannot be read gave None instead of an error.
---
 hachoir/stream/output.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 77632e5..d764daf 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -1,4 +1,4 @@
-from io import StringIO
+from io import BytesIO, UnsupportedOperation
 from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.bits import long2raw
 from hachoir.stream import StreamError
@@ -169,13 +169,15 @@ class OutputStream(object):
         self._output.flush()
         oldpos = self._output.tell()
         try:
-            self._output.seek(0)
+            self._output.seek(address // 8)
             try:
                 return self._output.read(nbytes)
             except IOError as err:
-                if err[0] == EBADF:
+                if (err.errno == EBADF
+                        or isinstance(err, UnsupportedOperation)):
                     raise OutputStreamError(
                         "Stream doesn't support read() operation")
+                raise
         finally:
             self._output.seek(oldpos)
 
@@ -184,7 +186,7 @@ def StringOutputStream():
     """
     Create an output stream into a string.
     """
-    data = StringIO()
+    data = BytesIO()
     return OutputStream(data)
 
 
-- 
2.43.0


From 72058bfc4c81fcdbe864b7ab815f89e8d82541d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 012/100] fix: a field added while the parser stops is found by
 its name at once

---
 hachoir/field/generic_field_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 74d8898..1fa3339 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -338,6 +338,9 @@ class GenericFieldSet(BasicFieldSet):
         except Exception as err:
             if self._fixFeedError(err) is False:
                 raise
+        # The field may have been added while stopping the parser
+        if field_name in self._fields:
+            return self._fields[field_name]
         return None
 
     def readMoreFields(self, number):
-- 
2.43.0


From 60215654c5c71abf9268a452d984fee08e9dbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 013/100] fix: iterating on a field set misses the last field
 of truncated data

---
 hachoir/field/generic_field_set.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 1fa3339..8165a6d 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -380,8 +380,8 @@ class GenericFieldSet(BasicFieldSet):
         Create a generator to iterate on each field, may create new
         fields when needed
         """
+        done = 0
         try:
-            done = 0
             while True:
                 if done == len(self._fields):
                     if self._field_generator is None:
@@ -391,21 +391,13 @@ class GenericFieldSet(BasicFieldSet):
                     yield field
                     done += 1
         except StopIteration:
-            field = self._stopFeeding()
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
+            self._stopFeeding()
         except Exception as err:
-            field = self._fixFeedError(err)
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
-            elif field is False:
+            if self._fixFeedError(err) is False:
                 raise
+        # Fields added while stopping the parser
+        for field in self._fields.values[done:]:
+            yield field
 
     def _isDone(self):
         return (self._field_generator is None)
-- 
2.43.0


From 1b85665272fc8daa56449d2c2c9c2ed8469408c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 014/100] fix: length of an array after looking for an item
 beyond its end

---
 hachoir/field/fake_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 0f8cbb8..7979b98 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -65,7 +65,8 @@ class FakeArray:
             try:
                 value = self.fieldset[self._format % index]
             except MissingField:
-                self._known_size = True
+                if index == self._max_index + 1:
+                    self._known_size = True
                 raise
             self._cache[index] = value
             self._max_index = max(index, self._max_index)
-- 
2.43.0


From 20e08be96a7938a470574814d94bfad70b9b822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 015/100] fix: length of a truncated vector

---
 hachoir/field/vector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hachoir/field/vector.py b/hachoir/field/vector.py
index fabb70e..31c8fc5 100644
--- a/hachoir/field/vector.py
+++ b/hachoir/field/vector.py
@@ -16,13 +16,10 @@ class GenericVector(FieldSet):
         self._item_name = item_name
         FieldSet.__init__(self, parent, name, description, size=size)
 
-    def __len__(self):
-        return self.__nb_items
-
     def createFields(self):
         name = self._item_name + "[]"
         parser = self._item_class
-        for index in range(len(self)):
+        for index in range(self.__nb_items):
             yield parser(self, name)
 
 
-- 
2.43.0


From 501a7354f4db9fa7f06de7f0bbf939890923668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:15 +0000
Subject: [PATCH 016/100] fix: stopping the parser of a seekable field set
 which sought beyond its end

---
 hachoir/field/seekable_field_set.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 4448f42..fa615d9 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -57,16 +57,11 @@ class RootSeekableFieldSet(GenericFieldSet):
         message = ["stop parser"]
         self._field_generator = None
 
-        # If last field is too big, delete it
-        while self._size < self._current_size:
-            field = self._deleteField(len(self._fields) - 1)
-            message.append("delete field %s" % field.path)
-        assert self._current_size <= self._size
-
         blocks = [(x.absolute_address, x.size) for x in self._fields]
         fields = []
-        self._size = max(self._size, max(
-            a + b for a, b in blocks) - self.absolute_address)
+        if blocks:
+            self._size = max(self._size, max(
+                a + b for a, b in blocks) - self.absolute_address)
         for start, length in getgaps(self.absolute_address, self._size, blocks):
             self.seekBit(start, relative=False)
             field = createRawField(self, length, "unparsed[]")
-- 
2.43.0


From 925c4b6c2f6d90338a8a6b025fbee5070942cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 017/100] fix: endless loop on truncated git pack files

---
 hachoir/parser/misc/git_pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 74dcfe9..e540eb2 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -7,7 +7,7 @@ FIXME: there are probably still some endianness bugs in this parser.
 """
 
 from hachoir.parser import Parser
-from hachoir.field import (UInt8, UInt32, String, SubFile, FieldSet, Bit, Bits, RawBytes, Enum, GenericInteger)
+from hachoir.field import (UInt8, UInt32, String, SubFile, FieldSet, Bit, Bits, RawBytes, Enum, GenericInteger, ParserError)
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
 from hachoir.core.text_handler import textHandler, hexadecimal
 from hachoir.parser.common.deflate import Deflate
@@ -200,6 +200,8 @@ class ObjectEntry(FieldSet):
         while not decompressor.eof:
             max_remaining_bytes = (stream.size - read_addr_in_bits) // 8
             num_bytes_to_read = min(1000, max_remaining_bytes)
+            if num_bytes_to_read <= 0:
+                raise ParserError("Compressed data is truncated")
             bytes_read = stream.readBytes(read_addr_in_bits, num_bytes_to_read)
             total_bytes_read += len(bytes_read)
             read_addr_in_bits += (len(bytes_read) * 8)
-- 
2.43.0


From eed9b8970826bbb99209f6c938ed30a5e9b115b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 018/100] fix: renaming a duplicate field never uses a name
 which is taken

---
 hachoir/field/generic_field_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 8165a6d..bcb9179 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -194,8 +194,10 @@ class GenericFieldSet(BasicFieldSet):
             self._fields.append(field._name, field)
         except UniqKeyError as err:
             self.warning("Duplicate field name " + str(err))
-            field._name += "[]"
-            self.setUniqueFieldName(field)
+            name = field._name + "[]"
+            while field._name in self._fields:
+                field._name = name
+                self.setUniqueFieldName(field)
             self._fields.append(field._name, field)
         if ask_stop:
             raise StopIteration()
-- 
2.43.0


From 99314593011da1f002a853d3822bf7a35bb10aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 019/100] fix: replaceField() changes nothing when it is
 refused

---
 hachoir/field/generic_field_set.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index bcb9179..2305d5a 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -452,27 +452,26 @@ class GenericFieldSet(BasicFieldSet):
             raise ParserError("Unable to replace %s: "
                               "new field(s) hasn't same size (%u bits instead of %u bits)!"
                               % (name, total_size, old_field.size))
+        # Choose and check all names before changing anything
+        names = set()
+        for field in new_fields:
+            if field._name.endswith("[]"):
+                self.setUniqueFieldName(field)
+            if field.name in names \
+                    or (field.name != name and field.name in self._fields):
+                raise ParserError(
+                    "Unable to replace %s: name \"%s\" is already used!"
+                    % (name, field.name))
+            names.add(field.name)
         field = new_fields[0]
-        if field._name.endswith("[]"):
-            self.setUniqueFieldName(field)
         field._address = old_field.address
-        if field.name != name and field.name in self._fields:
-            raise ParserError(
-                "Unable to replace %s: name \"%s\" is already used!"
-                % (name, field.name))
         self._fields.replace(name, field.name, field)
         self.raiseEvent("field-replaced", old_field, field)
         if 1 < len(new_fields):
             index = self._fields.index(new_fields[0].name) + 1
             address = field.address + field.size
             for field in new_fields[1:]:
-                if field._name.endswith("[]"):
-                    self.setUniqueFieldName(field)
                 field._address = address
-                if field.name in self._fields:
-                    raise ParserError(
-                        "Unable to replace %s: name \"%s\" is already used!"
-                        % (name, field.name))
                 self._fields.insert(index, field.name, field)
                 self.raiseEvent("field-inserted", index, field)
                 index += 1
-- 
2.43.0


From 548f0c5683f28d90acc6412b6961d03590236dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 020/100] fix: arrays see the fields written by replaceField()

---
 hachoir/field/generic_field_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 2305d5a..ed533a4 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -465,6 +465,7 @@ class GenericFieldSet(BasicFieldSet):
             names.add(field.name)
         field = new_fields[0]
         field._address = old_field.address
+        self._array_cache = {}
         self._fields.replace(name, field.name, field)
         self.raiseEvent("field-replaced", old_field, field)
         if 1 < len(new_fields):
-- 
2.43.0


From 32cbb8079ea16a1a600d0eab89a962d16d57f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 021/100] fix: getFieldByAddress() of seekable field sets

---
 hachoir/field/seekable_field_set.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index fa615d9..2e521b0 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -86,6 +86,15 @@ class RootSeekableFieldSet(GenericFieldSet):
         self._field_generator = None
         return new_field
 
+    def getFieldByAddress(self, address, feed=True):
+        # Fields are not sorted by address
+        if feed and self._field_generator is not None:
+            self._feedAll()
+        for field in self._fields:
+            if field.address <= address < field.address + field.size:
+                return field
+        return None
+
 
 class SeekableFieldSet(RootSeekableFieldSet):
 
-- 
2.43.0


From 65765d911781b0d1ba0b44e19aaaaff0b001a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:16 +0000
Subject: [PATCH 022/100] fix: links between fragments, packets of an Ogg
 stream

---
 hachoir/field/link.py           | 2 +-
 hachoir/parser/container/ogg.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index 0fae24e..dbdb092 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -93,7 +93,7 @@ class Fragment(FieldSet):
             field = None
         if self._first is not self:
             link = Link(self, "first", None)
-            link._getValue = lambda: self._first
+            link.createValue = lambda: self._first
             yield link
         if self._next:
             link = Link(self, "next", None)
diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 46b6a4b..3ad4ccd 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -178,7 +178,7 @@ class Packets:
                     if size:
                         yield size * 8
                     size = segment_size
-            fragment = fragment.__next__
+            fragment = fragment.next
         if size:
             yield size * 8
 
-- 
2.43.0


From c3c8da80ad9257e4a4a250e5924942f5122fe755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:41 +0000
Subject: [PATCH 023/100] fix: follow the cluster chains of a FAT

---
 hachoir/parser/file_system/fat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 802fab6..e2e2dae 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -347,7 +347,7 @@ class FAT_FS(Parser):
             clus_nb = 1
             next = cluster
             while True:
-                next = self.fat[next / 1000][next % 1000].value
+                next = self.fat[next].value
                 if not 1 < next < max_entry:
                     break
                 if cluster + clus_nb == next:
-- 
2.43.0


From 3eaee644176a4e4c78c26a3171739758885ff78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:13 +0000
Subject: [PATCH 024/100] fix: files of a FAT made of consecutive clusters

---
 hachoir/parser/file_system/fat.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index e2e2dae..d3b2269 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -343,20 +343,14 @@ class FAT_FS(Parser):
     def clusters(self, cluster_func):
         max_entry = (1 << min(28, self.version)) - 16
         cluster = cluster_func()
-        if 1 < cluster < max_entry:
-            clus_nb = 1
-            next = cluster
-            while True:
-                next = self.fat[next].value
-                if not 1 < next < max_entry:
-                    break
-                if cluster + clus_nb == next:
-                    clus_nb += 1
-                else:
-                    yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, False
-                    cluster = next
-                    clus_nb = 1
-            yield self.data_start + cluster * self.cluster_size, clus_nb * self.cluster_size, True
+        # The clusters are distinct fields: a run of consecutive clusters
+        # can not be written as a single field
+        last = not 1 < cluster < max_entry
+        while not last:
+            next = self.fat[cluster].value
+            last = not 1 < next < max_entry
+            yield self.data_start + cluster * self.cluster_size, self.cluster_size, last
+            cluster = next
 
     def createFields(self):
         # Read boot seector
-- 
2.43.0


From 1c46fabd60583da47d92e407aea8c8a6b37b3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 025/100] fix: reading the content of a bzip2 archive

---
 hachoir/parser/archive/bzip2_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index 2e91d69..b52b174 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -22,11 +22,11 @@ try:
         def __init__(self, stream):
             self.bzip2 = BZ2Decompressor()
 
-        def __call__(self, size, data=''):
+        def __call__(self, size, data=b''):
             try:
                 return self.bzip2.decompress(data)
             except EOFError:
-                return ''
+                return b''
 
     has_deflate = True
 except ImportError:
-- 
2.43.0


From 67a1758fb63f6f3aabbc5cbc527ceaad306ce321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:39 +0000
Subject: [PATCH 026/100] fix: reading nothing from a fragmented stream

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 0bdaecc..54e41ec 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -565,6 +565,8 @@ class FragmentedStream(InputStream):
         return False
 
     def read(self, address, size):
+        if not size:
+            return (0, b'', False)
         assert size > 0
         missing = self._feed(address + size)
         if missing:
-- 
2.43.0


From e8a22f36364a7054a86d827f5e751f81c7165d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:23 +0000
Subject: [PATCH 027/100] fix: place of the clusters of a FAT does not depend
 on what was read before

---
 hachoir/parser/file_system/fat.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index d3b2269..0ab3bcf 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -311,7 +311,7 @@ class InodeGen:
             self.done += field.datasize
         else:
             field = Directory(self.root, name, size=size)
-        padding = self.root.getFieldByAddress(address, feed=False)
+        padding = self.root.getFieldByAddress(address)
         if not isinstance(padding, (PaddingBytes, RawBytes)):
             error("(FAT) address %u doesn't point to a padding field" % address)
             return
@@ -363,7 +363,7 @@ class FAT_FS(Parser):
                 (boot["inf_sector"].value, lambda: FSInfo(self, "fsinfo")),
                 (boot["boot_copy"].value, lambda: Boot(
                     self, "bkboot", "Copy of the boot sector")),
-            )):
+            ), key=lambda item: item[0]):
                 if field[0]:
                     padding = self.seekByte(field[0] * self.sector_size)
                     if padding:
@@ -385,19 +385,25 @@ class FAT_FS(Parser):
         # Read inode table (Directory)
         self.cluster_size = boot["cluster_size"].value * self.sector_size * 8
         self.fat = self["fat[0]"]
+        # Clusters are numbered from 2, the first one follows the FAT, and the
+        # root directory when it has a place of its own (not in FAT32)
+        self.data_start = self.current_size - 2 * self.cluster_size
         if "root_start" in boot and boot["root_start"].value != 2:
             self.target_size = 0
             self.getCluster = lambda: boot["root_start"].value
             yield InodeLink(self, "root", "root")
         else:
-            yield Directory(self, "root[]", size=max(boot["max_root"].value * 32 * 8, boot["cluster_size"].value * self.sector_size * 8))
-        self.data_start = self.current_size - 2 * self.cluster_size
+            root_size = boot["max_root"].value * 32 * 8
+            if root_size:
+                self.data_start += root_size
+            yield Directory(self, "root[]", size=root_size or self.cluster_size)
         sectors = boot["sectors1"].value
         if not sectors:
             sectors = boot["sectors2"].value
 
+        first = (self.current_size - self.data_start) // self.cluster_size
         for i in range(sectors // boot['cluster_size'].value):
-            yield RawBytes(self, "sector[%d]" % (i + 2), self.cluster_size // 8)
+            yield RawBytes(self, "sector[%d]" % (i + first), self.cluster_size // 8)
 
 
 class FAT12(FAT_FS):
-- 
2.43.0


From e5482b140bc317f4964b743876c479378215de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:23 +0000
Subject: [PATCH 028/100] fix: an Ogg stream begins at its first page, whatever
 is read first

---
 hachoir/parser/container/ogg.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 3ad4ccd..5bab6f7 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -191,8 +191,9 @@ class Segments(Fragment):
             next = None
         else:
             next = self.createNext
-        self.setLinks(parent.parent.streams.setdefault(
-            parent['serial'].value, self), next)
+        first = parent.parent.streams.setdefault(
+            parent['serial'].value, parent)
+        self.setLinks(None if first is parent else first[self.name], next)
 
     def _createInputStream(self, **args):
         if self.first is self:
@@ -210,7 +211,13 @@ class Segments(Fragment):
         try:
             while True:
                 index += 1
-                next = parent[index][self.name]
+                page = parent[index]
+                if not page.lacing_size:
+                    if (page['last_page'].value
+                            and page['serial'].value == self.parent['serial'].value):
+                        return
+                    continue
+                next = page[self.name]
                 if next.first is first:
                     return next
         except MissingField:
@@ -317,7 +324,11 @@ class OggFile(Parser):
     def createFields(self):
         self.streams = {}
         while not self.eof:
-            yield OggPage(self, "page[]")
+            page = OggPage(self, "page[]")
+            if page.lacing_size:
+                # First page of each stream, whatever is read first
+                self.streams.setdefault(page['serial'].value, page)
+            yield page
 
     def createLastPage(self):
         start = self[0].size
-- 
2.43.0


From 5cc4ecdac7d04b3d4e10a8ce667b8efbd2e3d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:59 +0000
Subject: [PATCH 029/100] fix: end and byte order of UTF-16 and UTF-32 strings

---
 hachoir/field/string_field.py | 76 +++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 742634d..6a60b58 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -145,25 +145,30 @@ class GenericString(Bytes):
             self._content_size = nbytes   # content length in bytes
             self._size = nbytes * 8
             self._content_offset = 0
+            bom_size = self._readBOM()
         else:
             # Format with a suffix: Find the end of the string
             if self._format in self.SUFFIX_FORMAT:
                 self._content_offset = 0
 
                 # Choose the suffix
+                bom_size = self._readBOM()
                 suffix = self.suffix_str
 
-                # Find the suffix
-                length = self._parent.stream.searchBytesLength(
-                    suffix, False, self.absolute_address)
-                if length is None:
-                    raise FieldError("Unable to find end of string %s (format %s)!"
-                                     % (self.path, self._format))
-                if 1 < len(suffix):
-                    # Fix length for little endian bug with UTF-xx charset:
-                    #   u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE)
-                    #   search returns length=5, whereas real lenght is 6
-                    length = alignValue(length, len(suffix))
+                # Find the suffix: the first one at a multiple of the
+                # character size, eg. not in u"a\u0100" (UTF-16-LE: "a\0\0\1")
+                address = self.absolute_address
+                while True:
+                    length = self._parent.stream.searchBytesLength(
+                        suffix, False, address)
+                    if length is None:
+                        raise FieldError("Unable to find end of string %s (format %s)!"
+                                         % (self.path, self._format))
+                    length += (address - self.absolute_address) // 8
+                    if length % len(suffix) == 0:
+                        break
+                    address = (self.absolute_address
+                               + alignValue(length, len(suffix)) * 8)
 
                 # Compute sizes
                 self._content_size = length  # in bytes
@@ -182,25 +187,12 @@ class GenericString(Bytes):
                     self.absolute_address, prefix_size * 8, self._parent.endian)
                 self._content_size = value   # in bytes
                 self._size = (prefix_size + value) * 8
+                bom_size = self._readBOM()
 
-        # For UTF-16 and UTF-32, choose the right charset using BOM
-        if self._charset in self.UTF_CHARSET:
-            # Charset requires a BOM?
-            bomsize, endian = self.UTF_CHARSET[self._charset]
-            if endian == "BOM":
-                # Read the BOM value
-                nbytes = bomsize // 8
-                bom = self._parent.stream.readBytes(
-                    self.absolute_address, nbytes)
-
-                # Choose right charset using the BOM
-                bom_endian = self.UTF_BOM[bomsize]
-                if bom not in bom_endian:
-                    raise FieldError("String %s has invalid BOM (%s)!"
-                                     % (self.path, repr(bom)))
-                self._charset = bom_endian[bom]
-                self._content_size -= nbytes
-                self._content_offset += nbytes
+        if self._content_size < bom_size:
+            raise FieldError("String %s has no BOM!" % self.path)
+        self._content_size -= bom_size
+        self._content_offset += bom_size
 
         # Compute length in character if possible
         if self._character_size:
@@ -208,14 +200,38 @@ class GenericString(Bytes):
         else:
             self._length = None
 
+    def _readBOM(self):
+        """
+        For UTF-16 and UTF-32, choose the right charset using the BOM.
+        Return the size of the BOM in bytes.
+        """
+        bomsize, endian = self.UTF_CHARSET.get(self._charset, (8, None))
+        if endian != "BOM":
+            return 0
+
+        # Read the BOM value
+        nbytes = bomsize // 8
+        bom = self._parent.stream.readBytes(
+            self.absolute_address + self._content_offset * 8, nbytes)
+
+        # Choose right charset using the BOM
+        bom_endian = self.UTF_BOM[bomsize]
+        if bom not in bom_endian:
+            raise FieldError("String %s has invalid BOM (%s)!"
+                             % (self.path, repr(bom)))
+        self._charset = bom_endian[bom]
+        return nbytes
+
     @staticmethod
     def staticSuffixStr(format, charset, endian):
         if format not in GenericString.SUFFIX_FORMAT:
             return ''
         suffix = GenericString.SUFFIX_FORMAT[format]
         if charset in GenericString.UTF_CHARSET:
-            suffix_size = GenericString.UTF_CHARSET[charset][0]
+            suffix_size, char_endian = GenericString.UTF_CHARSET[charset]
             suffix = suffix[suffix_size]
+            if char_endian in suffix:
+                endian = char_endian
         else:
             suffix = suffix[8]
         return suffix[endian]
-- 
2.43.0


From 9385a47e2d8084163bd3f151ddb642b0b9ef11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 030/100] fix: edited integers of any size, range and address

---
 hachoir/editor/typed_field.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index fe64696..20b9665 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -212,17 +212,6 @@ class EditableCharacter(EditableFixedField):
 
 
 class EditableInteger(EditableFixedField):
-    VALID_VALUE_SIGNED = {
-        8: (-(1 << 8), (1 << 8) - 1),
-        16: (-(1 << 15), (1 << 15) - 1),
-        32: (-(1 << 31), (1 << 31) - 1),
-    }
-    VALID_VALUE_UNSIGNED = {
-        8: (0, (1 << 8) - 1),
-        16: (0, (1 << 16) - 1),
-        32: (0, (1 << 32) - 1)
-    }
-
     def __init__(self, parent, name, *args):
         if args:
             if len(args) != 3:
@@ -238,24 +227,25 @@ class EditableInteger(EditableFixedField):
         EditableFixedField.__init__(self, parent, name, value, size)
         if args:
             self._signed = args[0]
+            self._setValue(value)
             self._is_altered = True
         else:
             self._signed = self._parent._getOriginalField(self._name).signed
 
     def _setValue(self, value):
         if self._signed:
-            valid = self.VALID_VALUE_SIGNED
+            minval = -(1 << (self._size - 1))
+            maxval = (1 << (self._size - 1)) - 1
         else:
-            valid = self.VALID_VALUE_UNSIGNED
-        minval, maxval = valid[self._size]
+            minval, maxval = 0, (1 << self._size) - 1
         if not (minval <= value <= maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (minval, maxval))
         self._value = value
 
     def _write(self, output):
-        output.writeInteger(
-            self.value, self._signed, self._size // 8, self._parent.endian)
+        output.writeBits(self._size, self.value % (1 << self._size),
+                         self._parent.endian)
 
 
 class EditableTimestampMac32(EditableFixedField):
-- 
2.43.0


From 93cfa95b0a41beed111ee47b9049f0f8bceb4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 031/100] fix: edited strings: text, byte order mark and length
 prefix

---
 hachoir/editor/typed_field.py | 44 ++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 20b9665..cb5352b 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -135,7 +135,6 @@ class EditableString(EditableField):
     def __init__(self, parent, name, *args, **kw):
         if len(args) == 2:
             value = args[1]
-            assert isinstance(value, bytes)  # TODO: support Unicode
         elif not args:
             value = None
         else:
@@ -152,37 +151,50 @@ class EditableString(EditableField):
                 self._prefix_size = 0
             self._suffix_str = GenericString.staticSuffixStr(
                 self._format, self._charset, self._parent.endian)
+            self._bom = b''
+            self._setValue(value)
             self._is_altered = True
         else:
             orig = self._parent._getOriginalField(name)
             self._charset = orig.charset
             self._format = orig.format
-            self._prefix_size = orig.content_offset
+            self._prefix_size = GenericString.PASCAL_FORMATS.get(
+                self._format, 0)
             self._suffix_str = orig.suffix_str
+            self._bom = b''
+            bom_size = orig.content_offset - self._prefix_size
+            if bom_size:
+                self._bom = orig.parent.stream.readBytes(
+                    orig.absolute_address + self._prefix_size * 8, bom_size)
+
+    def _encode(self, value):
+        """
+        Content of the string: text is encoded using the charset of the field
+        """
+        if isinstance(value, str):
+            value = value.encode(self._charset or "ISO-8859-1")
+        return self._bom + value
 
     def _setValue(self, value):
-        size = len(value)
+        if not isinstance(value, (bytes, str)):
+            raise TypeError("EditableString needs a string")
+        size = len(self._encode(value))
         if self._format in self.MAX_SIZE and self.MAX_SIZE[self._format] < size:
             raise ValueError("String is too big")
-        assert isinstance(value, bytes)
         self._value = value
 
     def _computeSize(self):
-        return (self._prefix_size + len(self._value) + len(self._suffix_str)) * 8
+        return (self._prefix_size + len(self._encode(self._value))
+                + len(self._suffix_str)) * 8
 
     def _write(self, output):
-        if self._format in GenericString.SUFFIX_FORMAT:
-            output.writeBytes(self._value)
+        content = self._encode(self._value)
+        if self._prefix_size:
+            output.writeInteger(len(content), False,
+                                self._prefix_size, self._parent.endian)
+        output.writeBytes(content)
+        if self._suffix_str:
             output.writeBytes(self._suffix_str)
-        elif self._format == "fixed":
-            output.writeBytes(self._value)
-        else:
-            assert self._format in GenericString.PASCAL_FORMATS
-            size = GenericString.PASCAL_FORMATS[self._format]
-            output.writeInteger(len(self._value), False,
-                                size, self._parent.endian)
-            value = self._value.encode(self._charset)
-            output.writeBytes(value)
 
 
 class EditableCharacter(EditableFixedField):
-- 
2.43.0


From fab22d74233d10d12fcce852b7579c43c6c7abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 032/100] fix: new editable characters, timestamps and bytes
 are written

---
 hachoir/editor/typed_field.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index cb5352b..2d3e5cb 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -112,6 +112,12 @@ class EditableBits(EditableFixedField):
 
 class EditableBytes(EditableField):
 
+    def __init__(self, parent, name, value=None):
+        EditableField.__init__(self, parent, name, value)
+        if value is not None:
+            self._setValue(value)
+            self._is_altered = True
+
     def _setValue(self, value):
         if not value:
             raise ValueError(
@@ -201,26 +207,27 @@ class EditableCharacter(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
             value = args[0]
-            if not isinstance(value, str) or len(value) != 1:
-                raise TypeError("EditableCharacter needs a character")
         else:
             value = None
         EditableFixedField.__init__(self, parent, name, value, 8)
         if args:
+            self._setValue(value)
             self._is_altered = True
 
     def _setValue(self, value):
         if not isinstance(value, str) or len(value) != 1:
             raise TypeError("EditableCharacter needs a character")
+        if ord(value) > 255:
+            raise ValueError("Invalid value, must be an 8-bit character")
         self._value = value
 
     def _write(self, output):
-        output.writeBytes(self._value)
+        output.writeBits(self._size, ord(self._value), self._parent.endian)
 
 
 class EditableInteger(EditableFixedField):
@@ -265,7 +272,7 @@ class EditableTimestampMac32(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableTimestampMac32 constructor prototype is: "
                     "(parent, name, [value])")
@@ -274,6 +281,9 @@ class EditableTimestampMac32(EditableFixedField):
         else:
             value = None
         EditableFixedField.__init__(self, parent, name, value, 32)
+        if args:
+            self._setValue(value)
+            self._is_altered = True
 
     def _setValue(self, value):
         if not (self.minval <= value <= self.maxval):
-- 
2.43.0


From 1d5afdbfb78b39a06126147bab0020a73414b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 033/100] fix: place and order of fields inserted in an
 editable field set

---
 hachoir/editor/fieldset.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5299879..ea440af 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -102,16 +102,8 @@ class EditableFieldSet(object):
                     raise UniqKeyError(
                         "Field name '%s' already exists" % field.name)
 
-        # Input have already inserted field?
-        if key in self._inserted:
-            if next:
-                self._inserted[key].extend(reversed(new_fields))
-            else:
-                self._inserted[key].extendleft(reversed(new_fields))
-            return
-
         # Whould like to insert in inserted fields?
-        if key:
+        if key is not None:
             for fields in self._inserted.values():
                 names = [item.name for item in fields]
                 try:
@@ -126,20 +118,25 @@ class EditableFieldSet(object):
                     fields.rotate(pos)
                     return
 
+            # Check that the field is in input
+            if key in self._deleted or key not in self.input:
+                raise MissingField(self, key)
+
             # Get next field. Use None if we are at the end.
             if next:
                 index = self.input[key].index + 1
                 try:
                     key = self.input[index].name
-                except IndexError:
+                except MissingField:
                     key = None
-
-            # Check that field names are not in input
-            if key not in self.input:
-                raise MissingField(self, key)
-
-        # Insert in original input
-        self._inserted[key] = deque(new_fields)
+            if key not in self._inserted:
+                self._inserted[key] = deque()
+            self._inserted[key].extendleft(reversed(new_fields))
+        else:
+            # Insert at the end
+            if key not in self._inserted:
+                self._inserted[key] = deque()
+            self._inserted[key].extend(new_fields)
 
     def _getDescription(self):
         return self.input.description
-- 
2.43.0


From b2fbdbdc55305eb7a8130ae7a0563d67967ba407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 034/100] fix: inserted fields are members of their editable
 field set, missing ones can not be deleted

---
 hachoir/editor/fieldset.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index ea440af..d36ce8e 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -240,6 +240,10 @@ class EditableFieldSet(object):
         if isinstance(key, int):
             raise EditorError("Integer index are not supported")
 
+        for fields in self._inserted.values():
+            for field in fields:
+                if field.name == key:
+                    return weakref.proxy(field)
         if (key in self._deleted) or (key not in self.input):
             raise MissingField(self, key)
         if key not in self._fields:
@@ -260,7 +264,14 @@ class EditableFieldSet(object):
             fieldset = self[parts[0]]
             del fieldset[parts[2]]
             return
-        if name in self._deleted:
+        for key, fields in self._inserted.items():
+            for index, field in enumerate(fields):
+                if field.name == name:
+                    del fields[index]
+                    if not fields:
+                        del self._inserted[key]
+                    return
+        if name in self._deleted or name not in self.input:
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
-- 
2.43.0


From 4c4444d9aa53870b900546ad4e62688a4ff55c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 035/100] fix: reset of an editable field set

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index d36ce8e..604bccb 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -38,7 +38,7 @@ class EditableFieldSet(object):
         """
         Reset the field set and the input field set.
         """
-        for key, field in self._fields.items():
+        for key, field in list(self._fields.items()):
             if not field.is_altered:
                 del self._fields[key]
         self.input.reset()
-- 
2.43.0


From 8c4cab0e455a258f8c317339d7327bda667df87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 036/100] fix: copy of unaligned fields and sets into the
 edited file

---
 hachoir/editor/field.py    |  5 +----
 hachoir/editor/fieldset.py |  8 ++------
 hachoir/stream/output.py   | 12 +++++++-----
 3 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/hachoir/editor/field.py b/hachoir/editor/field.py
index f3d43c0..4353701 100644
--- a/hachoir/editor/field.py
+++ b/hachoir/editor/field.py
@@ -63,7 +63,4 @@ class FakeField(object):
         addr = self._parent._getFieldInputAddress(self._name)
         input = self._parent.input
         stream = input.stream
-        if size % 8 or addr % 8:
-            output.copyBitsFrom(stream, addr, size, input.endian)
-        else:
-            output.copyBytesFrom(stream, addr, size // 8)
+        output.copyBitsFrom(stream, addr, size, input.endian)
diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 604bccb..f7956a7 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -285,12 +285,8 @@ class EditableFieldSet(object):
         if not self.is_altered:
             # Not altered: just copy bits/bytes
             input = self.input
-            if input.size % 8:
-                output.copyBitsFrom(input.stream,
-                                    input.absolute_address, input.size, input.endian)
-            else:
-                output.copyBytesFrom(input.stream,
-                                     input.absolute_address, input.size // 8)
+            output.copyBitsFrom(input.stream,
+                                input.absolute_address, input.size, input.endian)
         else:
             # Altered: call writeInto() method of each field
             realaddr = 0
diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index d764daf..c7f64e7 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -122,11 +122,13 @@ class OutputStream(object):
         if (nb_bits % 8) == 0 and (address % 8) == 0 and (self._bit_pos % 8) == 0:
             self.copyBytesFrom(input, address, nb_bits // 8)
         else:
-            # Arbitrary limit (because we should use a buffer, like copyBytesFrom(),
-            # but with endianess problem
-            assert nb_bits <= config.max_bit_length
-            data = input.readBits(address, nb_bits, endian)
-            self.writeBits(nb_bits, data, endian)
+            # Copy at most max_bit_length bits at once
+            while nb_bits:
+                size = min(nb_bits, config.max_bit_length)
+                data = input.readBits(address, size, endian)
+                self.writeBits(size, data, endian)
+                address += size
+                nb_bits -= size
 
     def copyBytesFrom(self, input, address, nb_bytes):
         if (address % 8):
-- 
2.43.0


From 8b54d3cf2f2a87da59acb65c6bb625713a0f36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 037/100] fix: value, range and edited parts of an editable
 float

---
 hachoir/editor/fieldset.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index f7956a7..b61ad5f 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -306,7 +306,7 @@ class EditableFloat(EditableFieldSet):
     _value = None
 
     def _isAltered(self):
-        return (self._value is not None)
+        return (self._value is not None) or EditableFieldSet._isAltered(self)
     is_altered = property(_isAltered)
 
     def writeInto(self, output):
@@ -316,14 +316,21 @@ class EditableFloat(EditableFieldSet):
             EditableFieldSet.writeInto(self, output)
 
     def _write(self, output):
-        format = self.input.struct_format
-        raw = struct.pack(format, self._value)
+        raw = struct.pack(self.input.struct_format, self._value)
         output.writeBytes(raw)
 
+    def _getValue(self):
+        if self._value is not None:
+            return self._value
+        return self.input.value
+
     def _setValue(self, value):
-        self.parent._is_altered = True
+        try:
+            struct.pack(self.input.struct_format, value)
+        except (struct.error, OverflowError) as err:
+            raise ValueError("Invalid value: %s" % err)
         self._value = value
-    value = property(EditableFieldSet._getValue, _setValue)
+    value = property(_getValue, _setValue)
 
 
 def createEditableFieldSet(parent, field):
-- 
2.43.0


From 5096b7afd5859ed58d424d209ae13d9ec48386ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 038/100] fix: new field sets, and indexed names of inserted
 fields

---
 hachoir/editor/fieldset.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index b61ad5f..c5f0677 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -1,5 +1,5 @@
 from hachoir.core.dict import UniqKeyError
-from hachoir.field import MissingField, Float32, Float64, FakeArray
+from hachoir.field import BasicFieldSet, joinPath, MissingField, Float32, Float64, FakeArray
 from hachoir.editor import createEditableField, EditorError
 from collections import deque  # Python 2.4
 import weakref  # Python 2.1
@@ -60,6 +60,11 @@ class EditableFieldSet(object):
             for newfield in self._inserted[None]:
                 yield weakref.proxy(newfield)
 
+    def _setUniqueFieldName(self, field):
+        # Name all original fields before choosing a new index
+        len(self.input)
+        self.input.setUniqueFieldName(field)
+
     def insertBefore(self, name, *new_fields):
         self._insert(name, new_fields, False)
 
@@ -78,7 +83,7 @@ class EditableFieldSet(object):
         # Set unique field name
         for field in new_fields:
             if field._name.endswith("[]"):
-                self.input.setUniqueFieldName(field)
+                self._setUniqueFieldName(field)
 
         # Check that there is no duplicate in inserted fields
         new_names = list(field.name for field in new_fields)
@@ -119,7 +124,7 @@ class EditableFieldSet(object):
                     return
 
             # Check that the field is in input
-            if key in self._deleted or key not in self.input:
+            if key in self._deleted or not self._inInput(key):
                 raise MissingField(self, key)
 
             # Get next field. Use None if we are at the end.
@@ -219,6 +224,10 @@ class EditableFieldSet(object):
             field = field[name]
         return field
 
+    def _inInput(self, name):
+        # A new field set has no input
+        return self.input is not None and name in self.input
+
     def __contains__(self, name):
         try:
             field = self[name]
@@ -244,7 +253,7 @@ class EditableFieldSet(object):
             for field in fields:
                 if field.name == key:
                     return weakref.proxy(field)
-        if (key in self._deleted) or (key not in self.input):
+        if (key in self._deleted) or not self._inInput(key):
             raise MissingField(self, key)
         if key not in self._fields:
             field = self.input[key]
@@ -271,7 +280,7 @@ class EditableFieldSet(object):
                     if not fields:
                         del self._inserted[key]
                     return
-        if name in self._deleted or name not in self.input:
+        if name in self._deleted or not self._inInput(name):
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
@@ -348,12 +357,20 @@ class NewFieldSet(EditableFieldSet):
         EditableFieldSet.__init__(self, parent, None)
         self._name = name
         self._endian = parent.endian
+        self._field_array_count = {}
+
+    _setUniqueFieldName = BasicFieldSet.setUniqueFieldName
 
     def __iter__(self):
-        if None in self._inserted:
-            return iter(self._inserted[None])
-        else:
-            raise StopIteration()
+        for field in self._inserted.get(None, ()):
+            yield weakref.proxy(field)
+
+    def __len__(self):
+        return len(self._inserted.get(None, ()))
+
+    def _getPath(self):
+        return joinPath(self._parent.path, self._name)
+    path = property(_getPath)
 
     def _getName(self):
         return self._name
-- 
2.43.0


From 75b5c6127795bbfcf134b91064fdd46902ba3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:59 +0000
Subject: [PATCH 039/100] fix: values of the wrong type are refused by editable
 fields

---
 hachoir/editor/typed_field.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 2d3e5cb..64889ad 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -101,6 +101,8 @@ class EditableBits(EditableFixedField):
             self._is_altered = True
 
     def _setValue(self, value):
+        if not isinstance(value, int):
+            raise TypeError("EditableBits needs an integer")
         if not (0 <= value < (1 << self._size)):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (0, (1 << self._size) - 1))
@@ -119,6 +121,8 @@ class EditableBytes(EditableField):
             self._is_altered = True
 
     def _setValue(self, value):
+        if not isinstance(value, (bytes, bytearray)):
+            raise TypeError("EditableBytes needs bytes")
         if not value:
             raise ValueError(
                 "Unable to set empty string to a EditableBytes field")
@@ -252,6 +256,8 @@ class EditableInteger(EditableFixedField):
             self._signed = self._parent._getOriginalField(self._name).signed
 
     def _setValue(self, value):
+        if not isinstance(value, int):
+            raise TypeError("EditableInteger needs an integer")
         if self._signed:
             minval = -(1 << (self._size - 1))
             maxval = (1 << (self._size - 1)) - 1
-- 
2.43.0


From 3927d0dbc6157c6e826d4a531b75a345bdc2573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:24 +0000
Subject: [PATCH 040/100] fix: strip of tar archives

---
 hachoir/strip.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index 5db2868..1289f2e 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -172,27 +172,33 @@ def usage():
 class TarStripper(BasicStripper):
 
     def strip(self):
-        for file in self.editor.array("file"):
-            self.stripFile(file)
+        if self.level & STRIP_METADATA:
+            for file in self.editor.array("file"):
+                self.stripFile(file)
+        return 0
 
-    def fixChecksum(self, file):
-        file["check_sum"].value = " " * 8
+    def getHeader(self, file):
         stream = StringOutputStream()
         file.writeInto(stream)
-        data = stream.readBytes(0, 512)
-        checksum = sum(ord(character) for character in data)
+        return stream.readBytes(0, 512)
+
+    def fixChecksum(self, file):
+        file["check_sum"].value = " " * 8
+        checksum = sum(self.getHeader(file))
         file["check_sum"].value = ("0%o\0" % checksum).ljust(8, " ")
 
     def stripFile(self, file):
         empty32 = "\0" * 32
         uid = "0000000\0"
+        header = self.getHeader(file)
         file["uid"].value = uid
         file["gid"].value = uid
         file["mtime"].value = "00000000000\0"
         file["uname"].value = empty32
         file["gname"].value = empty32
         self.fixChecksum(file)
-        self._is_dirty = True
+        if self.getHeader(file) != header:
+            self._is_dirty = True
 
 
 strippers = {
-- 
2.43.0


From 302679798a18c83a79ac33f9996f0a039d25188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:24 +0000
Subject: [PATCH 041/100] fix: strip removes every part of a kind, not only the
 first

---
 hachoir/strip.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index 1289f2e..4959d62 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -53,6 +53,12 @@ class BasicStripper:
         """
         raise NotImplementedError()
 
+    def fieldKind(self, field):
+        """
+        Name of the field without index: the second "exif" chunk is "exif[0]".
+        """
+        return field.name.partition("[")[0]
+
     def removeField(self, field, editor=None):
         if not editor:
             editor = self.editor
@@ -88,7 +94,7 @@ class PngStripper(CheckStripper):
             name = field.name
             if name.startswith("text["):
                 return True
-            if name == "time":
+            if self.fieldKind(field) == "time":
                 return True
         return False
 
@@ -99,7 +105,7 @@ class JpegStripper(CheckStripper):
         if self.level & STRIP_METADATA:
             if field.name.startswith("comment"):
                 return True
-            return field.name in ("photoshop", "exif", "adobe")
+            return self.fieldKind(field) in ("photoshop", "exif", "adobe")
         return False
 
 
@@ -128,7 +134,7 @@ class RiffStripper(BasicStripper):
         remove = []
         total = 0
         for field in editor:
-            if field.name in names:
+            if self.fieldKind(field) in names:
                 remove.append(field)
                 continue
             try:
@@ -138,7 +144,7 @@ class RiffStripper(BasicStripper):
             if self.level & STRIP_USELESS and tag in "JUNK":
                 remove.append(field)
                 continue
-            if tag == "LIST" and field.name != "movie":
+            if tag == "LIST" and self.fieldKind(field) != "movie":
                 # Strip a chunk list
                 size = self.stripSub(field, names)
                 if size:
-- 
2.43.0


From 1de957107e3957311874b31f2a8a2a5da0b7ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 042/100] fix: dates with a time zone west of Greenwich, or an
 impossible one

---
 hachoir/metadata/setter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 9d6997d..314c471 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -21,7 +21,8 @@ DATETIME_REGEX2 = re.compile("^([01]?[0-9])~([0-9]{2})~([0-9]{4})"
                              "~([0-9]{1,2})~([0-9]{2})~([0-9]{1,2})$")
 
 # Timezone regex: "(...) +0200"
-TIMEZONE_REGEX = re.compile("^(.*)~([+-][0-9]{2})00$")
+# (on the text as it is: "-" is a separator of normalized texts)
+TIMEZONE_REGEX = re.compile("^(.*?)[-/.: ]+([+-](?:[01][0-9]|2[0-3]))00$")
 
 # Timestmap: 'February 2007'
 MONTH_YEAR = "%B~%Y"
@@ -53,7 +54,8 @@ def parseDatetime(value):
     >>> parseDatetime('Thu, 19 Jul 2007 09:03:57 +0200')
     datetime.datetime(2007, 7, 19, 9, 3, 57, tzinfo=<Timezone delta=2:00:00, name='+0200'>)
     """
-    value = NORMALIZE_REGEX.sub("~", value.strip())
+    text = value.strip()
+    value = NORMALIZE_REGEX.sub("~", text)
     regs = YEAR_REGEX1.match(value)
     if regs:
         try:
@@ -96,9 +98,9 @@ def parseDatetime(value):
             pass
     current_locale = setlocale(LC_ALL, "C")
     try:
-        match = TIMEZONE_REGEX.match(value)
+        match = TIMEZONE_REGEX.match(text)
         if match:
-            without_timezone = match.group(1)
+            without_timezone = NORMALIZE_REGEX.sub("~", match.group(1))
             delta = int(match.group(2))
             delta = createTimezone(delta)
         else:
-- 
2.43.0


From eff2fcf7a79260383294fac1cdc7ce9f30ffb920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 043/100] fix: parseDatetime() restores the locale

---
 hachoir/metadata/setter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 314c471..064286c 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -96,7 +96,8 @@ def parseDatetime(value):
             return datetime(year, month, day, hour, min, sec)
         except ValueError:
             pass
-    current_locale = setlocale(LC_ALL, "C")
+    current_locale = setlocale(LC_ALL)
+    setlocale(LC_ALL, "C")
     try:
         match = TIMEZONE_REGEX.match(text)
         if match:
-- 
2.43.0


From 0e384b0fb5d2eca09b48d8ddad2b6a9729b12dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 044/100] fix: export of empty metadata, and of groups with the
 same heading

---
 hachoir/metadata/metadata.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/metadata.py b/hachoir/metadata/metadata.py
index 67df716..b6f4f7f 100644
--- a/hachoir/metadata/metadata.py
+++ b/hachoir/metadata/metadata.py
@@ -129,7 +129,7 @@ class Metadata(Logger):
 
         @see __str__() and exportPlaintext()
         """
-        return "\n".join(self.exportPlaintext())
+        return "\n".join(self.exportPlaintext() or ())
 
     def exportPlaintext(self, priority=None, human=True, line_prefix="- ", title=None):
         r"""
@@ -271,8 +271,9 @@ class MultipleMetadata(RootMetadata):
         self.__groups.append(key, metadata)
         return True
 
-    def exportPlaintext(self, priority=None, human=True, line_prefix="- "):
-        common = Metadata.exportPlaintext(self, priority, human, line_prefix)
+    def exportPlaintext(self, priority=None, human=True, line_prefix="- ", title=None):
+        common = Metadata.exportPlaintext(
+            self, priority, human, line_prefix, title)
         if common:
             text = common
         else:
@@ -291,8 +292,8 @@ class MultipleMetadata(RootMetadata):
         else:
             return None
 
-    def exportDictionary(self, priority=None, human=True):
-        common = Metadata.exportDictionary(self, priority, human)
+    def exportDictionary(self, priority=None, human=True, title=None):
+        common = Metadata.exportDictionary(self, priority, human, title)
         if common:
             text = common
         else:
@@ -303,8 +304,14 @@ class MultipleMetadata(RootMetadata):
             else:
                 title = None
             value = metadata.exportDictionary(priority, human, title=title)
-            if value:
-                text.update(value)
+            for header, data in value.items():
+                # Different groups may have the same header
+                unique = header
+                index = 1
+                while unique in text:
+                    index += 1
+                    unique = "%s (%u)" % (header, index)
+                text[unique] = data
         return text
 
 
-- 
2.43.0


From 267a2da976757ca8a5d24384020253426d08857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 045/100] fix: joining regular expressions does not change the
 operands

---
 hachoir/regex/regex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 207cd26..4ea43f5 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -650,8 +650,7 @@ class RegexAnd(Regex):
             return total
         new_item = self.content[-1]._and(regex)
         if new_item:
-            self.content[-1] = new_item
-            return self
+            return RegexAnd(self.content[:-1] + [new_item])
         return RegexAnd(self.content + [regex])
 
     def _str(self, **kw):
-- 
2.43.0


From 203138623ce7fd6ce544ebc5365aa87bb055f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 046/100] fix: text of the repetition of a repetition, or of an
 anchor

---
 hachoir/regex/regex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 4ea43f5..59af249 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -870,8 +870,8 @@ class RegexRepeat(Regex):
             return None
 
     def _str(self, **kw):
-        text = str(self.regex)
-        if self.regex.__class__ == RegexAnd \
+        text = self.regex.__str__(**kw)
+        if isinstance(self.regex, (RegexAnd, RegexRepeat, RegexEmpty)) \
                 or (self.regex.__class__ == RegexString and 1 < len(self.regex.text)):
             text = "(%s)" % text
         if self.min == 0 and self.max == 1:
-- 
2.43.0


From 1ab23d85e33847f6e43aa7b892a08b92aa5d1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 047/100] fix: repetitions of repetitions keep their language

---
 hachoir/regex/regex.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 59af249..c8e7831 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -784,6 +784,9 @@ def optimizeRepeatOr(rmin, rmax, regex):
                     if rmax is item.max is None:
                         # (a*|b){x,} => (a|b){x,}
                         item = item.regex
+                    elif item.max == 1:
+                        # (a?|b){x,} => (a|b){x,}
+                        item = item.regex
                     else:
                         # (a{0,p}|b){x,} => (a{1,p}|b){x,}
                         item = RegexRepeat(
@@ -823,7 +826,14 @@ class RegexRepeat(Regex):
             cls = regex.__class__
             if cls == RegexRepeat:
                 # (a{n,p}){x,y) => a{n*x,p*y}
-                if not (rmin == 0 and rmax == 1):
+                # only if a{n,p} repeated k and k+1 times leave no gap
+                # between them: a{2} or a{4}, but not a{3}
+                if rmax != 0 \
+                        and not (rmin == 0 and rmax == 1) \
+                        and (rmin == rmax
+                             or (regex.min <= 1 if not rmin
+                                 else (regex.max is None
+                                       or regex.min * (rmin + 1) <= regex.max * rmin + 1))):
                     rmin *= regex.min
                     if regex.max and rmax:
                         rmax *= regex.max
@@ -865,9 +875,10 @@ class RegexRepeat(Regex):
 
     def maxLength(self):
         if self.max is not None:
-            return self.regex.maxLength() * self.max
-        else:
-            return None
+            length = self.regex.maxLength()
+            if length is not None:
+                return length * self.max
+        return None
 
     def _str(self, **kw):
         text = self.regex.__str__(**kw)
-- 
2.43.0


From 82e1b06c2c210381ea4fd57bd294566594d240ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:10 +0000
Subject: [PATCH 048/100] fix: a dot does not match a newline

---
 hachoir/regex/regex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index c8e7831..7e01ead 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -329,10 +329,12 @@ class RegexDot(Regex):
         return '.'
 
     def _match(self, other):
+        # A dot matches any character except a newline
+        newline = RegexRangeCharacter("\n")
         if other.__class__ == RegexRange:
-            return True
+            return other.exclude == any(newline in item for item in other.ranges)
         if other.__class__ == RegexString and len(other.text) == 1:
-            return True
+            return other.text != "\n"
         return False
 
     def _eq(self, other):
-- 
2.43.0


From f70fb194bc76fd4c21bf85368b23557122004473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:10 +0000
Subject: [PATCH 049/100] fix: special characters of a range are escaped

---
 hachoir/regex/regex.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 7e01ead..00bb613 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -448,10 +448,16 @@ class RegexRangeItem:
         assert issubclass(value.__class__, RegexRangeItem)
         return (self.cmin <= value.cmin) and (value.cmax <= self.cmax)
 
+    def _escape(self, code):
+        char = chr(code)
+        if char in "\\]^-":
+            char = "\\" + char
+        return char
+
     def __str__(self, **kw):
-        cmin = chr(self.cmin)
+        cmin = self._escape(self.cmin)
         if self.cmin != self.cmax:
-            cmax = chr(self.cmax)
+            cmax = self._escape(self.cmax)
             if (self.cmin + 1) == self.cmax:
                 return "%s%s" % (cmin, cmax)
             else:
@@ -552,13 +558,13 @@ class RegexRange(Regex):
 
     def _str(self, **kw):
         content = [str(item) for item in self.ranges]
-        if "-" in content:
-            content.remove("-")
+        if "\\-" in content:
+            content.remove("\\-")
             suffix = "-"
         else:
             suffix = ""
-        if "]" in content:
-            content.remove("]")
+        if "\\]" in content:
+            content.remove("\\]")
             prefix = "]"
         else:
             prefix = ""
-- 
2.43.0


From e5569ba1a21bbc77657042caaa297bd620b6674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:11 +0000
Subject: [PATCH 050/100] fix: unsupported escape sequences in a range are
 refused

---
 hachoir/regex/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 234c935..76a3e46 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -42,6 +42,9 @@ def parseRange(text, start):
     while index < len(text) and text[index] != ']':
         if index + 1 < len(text) \
                 and text[index] == '\\':
+            if text[index + 1].isalnum():
+                raise SyntaxError(
+                    "Operator '\\%s' is not supported" % text[index + 1])
             char_range.append(RegexRangeCharacter(text[index + 1]))
             index += 2
         elif index + 1 < len(text) \
-- 
2.43.0


From 2dda98aadcc8d611e2d96d26a460238b2a781ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:09 +0000
Subject: [PATCH 051/100] fix: lazy and possessive repetitions are refused

---
 hachoir/regex/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hachoir/regex/parser.py b/hachoir/regex/parser.py
index 76a3e46..3c67308 100644
--- a/hachoir/regex/parser.py
+++ b/hachoir/regex/parser.py
@@ -155,6 +155,10 @@ def _parse(text, start=0, until=None):
                 if last is None:
                     raise SyntaxError(
                         'Repetition character (%s) without previous expression' % text[index])
+                if isinstance(last, RegexRepeat) and char in "?+" \
+                        and text[index - 1] in "*+?}":
+                    raise NotImplementedError(
+                        "Doesn't support lazy or possessive repetitions")
                 new_regex = RegexRepeat(last, rmin, rmax)
                 last = None
                 index += 1
-- 
2.43.0


From cdda0b7a2a1491f0060ed0f686ba80edfe9fd851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 052/100] fix: a pattern is found by the whole text it matches

---
 hachoir/regex/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index e525663..99a282b 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -44,7 +44,7 @@ class RegexPattern(Pattern):
         return "<RegexPattern '%s'>" % self
 
     def match(self, data):
-        return self.compiled_regex.match(data)
+        return self.compiled_regex.fullmatch(data)
 
     def _getCompiledRegex(self):
         if self._compiled_regex is None:
-- 
2.43.0


From f6cc95278703cce54f111ae8da2a194fe9500b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 053/100] fix: choosing a parser by an unknown identifier skips
 no validation

Only the parsers asked for by their class or identifier are used without
validation. Opening a file does not change the caller's list of tags.
---
 hachoir/parser/guess.py        | 12 +++++++-----
 hachoir/stream/input_helper.py |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 9753608..b547cdb 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -15,7 +15,8 @@ class QueryParser(object):
     other = None
 
     def __init__(self, tags):
-        self.validate = True
+        # Parsers asked for by their class or identifier are not validated
+        self.forced = set()
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
@@ -55,7 +56,7 @@ class QueryParser(object):
             for parser in parsers:
                 self.parsers.remove(parser)
         elif tag[0] == "class":
-            self.validate = False
+            self.forced.add(tag[1])
             return [tag[1]]
         elif tag[0] == "args":
             self.parser_args = tag[1]
@@ -70,13 +71,13 @@ class QueryParser(object):
                     values = iter(byname.values())
                 else:
                     values = byname.get(tag[1], ()),
-                if key == "id" and values:
-                    self.validate = False
                 for value in values:
                     for parser in value:
                         if parser in self.parsers:
                             parsers.append(parser)
                             self.parsers.remove(parser)
+                if key == "id":
+                    self.forced.update(parsers)
         return parsers
 
     def parse(self, stream, fallback=True):
@@ -97,7 +98,8 @@ class QueryParser(object):
         warn = warning
         for parser in self.parsers:
             try:
-                parser_obj = parser(stream, validate=self.validate)
+                parser_obj = parser(
+                    stream, validate=parser not in self.forced)
                 if self.parser_args:
                     for key, value in self.parser_args.items():
                         setattr(parser_obj, key, value)
diff --git a/hachoir/stream/input_helper.py b/hachoir/stream/input_helper.py
index ed9263e..bf5a912 100644
--- a/hachoir/stream/input_helper.py
+++ b/hachoir/stream/input_helper.py
@@ -34,7 +34,8 @@ def FileInputStream(filename, real_filename=None, **args):
         stream = InputIOStream(inputio, source=source, **args)
         return InputSubStream(stream, 8 * offset, size, **args)
     else:
-        args.setdefault("tags", []).append(("filename", filename))
+        # (the list of the caller is not changed)
+        args["tags"] = list(args.get("tags", ())) + [("filename", filename)]
         return InputIOStream(inputio, source=source, **args)
 
 
-- 
2.43.0


From 1cc5d092cef8bf3df1e3a85430b3d2e409c74da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:08 +0000
Subject: [PATCH 054/100] fix: limitedTime() restores the handler and the timer
 on every path

The timer of an outer call was cancelled, and a signal raised at the end of
the call left the handler of limitedTime().
---
 hachoir/core/timeout.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/hachoir/core/timeout.py b/hachoir/core/timeout.py
index 9bc4d3e..2d915d3 100644
--- a/hachoir/core/timeout.py
+++ b/hachoir/core/timeout.py
@@ -40,20 +40,31 @@ def fixTimeout(second):
 
 if not IMPLEMENTATION:
     try:
-        from signal import signal, alarm, SIGALRM
+        from signal import signal, SIGALRM, setitimer, ITIMER_REAL
+        from time import monotonic
 
-        # signal.alarm() implementation
+        # signal.setitimer() implementation
         def limitedTime(second, func, *args, **kw):  # noqa
             second = fixTimeout(second)
+            # Stop the timer which may be running
+            start = monotonic()
+            pending, interval = setitimer(ITIMER_REAL, 0)
             old_alarm = signal(SIGALRM, signalHandler)
             try:
-                alarm(second)
+                setitimer(ITIMER_REAL, second)
                 return func(*args, **kw)
             finally:
-                alarm(0)
-                signal(SIGALRM, old_alarm)
-
-        IMPLEMENTATION = "signal.alarm()"
+                try:
+                    # The signal may still be raised here
+                    setitimer(ITIMER_REAL, 0)
+                finally:
+                    signal(SIGALRM, old_alarm)
+                    if pending:
+                        # Restart the timer which was running
+                        pending -= monotonic() - start
+                        setitimer(ITIMER_REAL, max(pending, 0.001), interval)
+
+        IMPLEMENTATION = "signal.setitimer()"
     except ImportError:
         pass
 
-- 
2.43.0


From a2d703b81a8f0c479500a36e11c9d34901da11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:08 +0000
Subject: [PATCH 055/100] fix: limitedMemory() restores the memory limit

The old limit was multiplied by the size of a page, the hard limit was
removed, and a nested call removed a stronger limit.
---
 hachoir/core/memory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 9b03023..9253650 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -53,10 +53,7 @@ try:
 
     def getMemoryLimit():  # noqa
         try:
-            limit = getrlimit(RLIMIT_AS)[0]
-            if 0 < limit:
-                limit *= PAGE_SIZE
-            return limit
+            return getrlimit(RLIMIT_AS)[0]
         except ValueError:
             return None
 
@@ -64,7 +61,7 @@ try:
         if max_mem is None:
             max_mem = -1
         try:
-            setrlimit(RLIMIT_AS, (max_mem, -1))
+            setrlimit(RLIMIT_AS, (max_mem, getrlimit(RLIMIT_AS)[1]))
             return True
         except ValueError:
             return False
@@ -88,6 +85,9 @@ def limitedMemory(limit, func, *args, **kw):
         # Get old limit and then set our new memory limit
         old_limit = getMemoryLimit()
         limit = max_rss + limit
+        if old_limit is not None and 0 < old_limit < limit:
+            # A stronger limit is already set
+            limit = old_limit
         limited = setMemoryLimit(limit)
     else:
         limited = False
-- 
2.43.0


From 6e196753e977c3af07c89153660f87073c88f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:08 +0000
Subject: [PATCH 056/100] fix: no backtrace when there is no exception

---
 hachoir/core/error.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hachoir/core/error.py b/hachoir/core/error.py
index cf5d251..bb42690 100644
--- a/hachoir/core/error.py
+++ b/hachoir/core/error.py
@@ -14,9 +14,8 @@ def getBacktrace(empty="Empty backtrace."):
     """
     try:
         info = sys.exc_info()
-        trace = traceback.format_exception(*info)
-        if trace[0] != "None\n":
-            return "".join(trace)
+        if info[0] is not None:
+            return "".join(traceback.format_exception(*info))
     except Exception:
         # No i18n here (imagine if i18n function calls error...)
         return "Error while trying to get backtrace"
-- 
2.43.0


From 1d8c56632f18f6f04cea34b20fcbfa2d1d92d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:53 +0000
Subject: [PATCH 057/100] fix: log file which can't be opened, is not appended,
 or gets undecodable text

---
 hachoir/core/log.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hachoir/core/log.py b/hachoir/core/log.py
index 8d0a932..8525823 100644
--- a/hachoir/core/log.py
+++ b/hachoir/core/log.py
@@ -36,23 +36,23 @@ class Log:
         @param filename: C{L{string}}
         """
 
-        # Look if file already exists or not
         filename = os.path.expanduser(filename)
         filename = os.path.realpath(filename)
-        append = os.access(filename, os.F_OK)
 
-        # Create log file (or open it in append mode, if it already exists)
+        # Create log file (or open it in append mode)
         try:
             import codecs
             if append:
-                self.__file = codecs.open(filename, "a", "utf-8")
+                mode = "a"
             else:
-                self.__file = codecs.open(filename, "w", "utf-8")
+                mode = "w"
+            self.__file = codecs.open(filename, mode, "utf-8",
+                                      "backslashreplace")
             self._writeIntoFile("Starting Hachoir")
-        except FileNotFoundError:
+        except OSError as err:
             self.__file = None
-            self.info("[Log] setFilename(%s) fails: no such file"
-                      % filename)
+            self.info("[Log] setFilename(%s) fails: %s"
+                      % (filename, err.strerror))
 
     def _writeIntoFile(self, message):
         timestamp = time.strftime("%Y-%m-%d %H:%M:%S")
-- 
2.43.0


From e323eea5427856af284bd187368ab4944588520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:46 +0000
Subject: [PATCH 058/100] fix: reading a CHM file prints nothing on the
 standard output

---
 hachoir/parser/misc/chm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hachoir/parser/misc/chm.py b/hachoir/parser/misc/chm.py
index 7e76965..dd969d8 100644
--- a/hachoir/parser/misc/chm.py
+++ b/hachoir/parser/misc/chm.py
@@ -145,7 +145,6 @@ class PMGL(FieldSet):
         num_quickref = (entry_count // quickref_frequency)
         if entry_count % quickref_frequency == 0:
             num_quickref -= 1
-        print(self.current_size // 8, quickref_frequency, num_quickref)
         padding = (self["free_space"].value - (num_quickref * 2 + 2))
         if padding:
             yield PaddingBytes(self, "padding", padding)
-- 
2.43.0


From d7595b6bef57f0a58ad2d0563a3f21d36a7e41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 059/100] fix: hachoir-grep survives a closed pipe and strings
 without value

---
 hachoir/grep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/grep.py b/hachoir/grep.py
index b1c46cc..6c5332b 100644
--- a/hachoir/grep.py
+++ b/hachoir/grep.py
@@ -84,7 +84,8 @@ class Grep:
 
     def match(self, field):
         value = field.value
-        if len(value) == 0:
+        if not value:
+            # Empty string, or string without value (eg. invalid content)
             return False
         if not self.pattern:
             return True
@@ -159,7 +160,7 @@ class ConsoleGrep(Grep):
             try:
                 self.grep(self.parser)
             except IOError as err:
-                if err[0] == errno.EPIPE:
+                if err.errno == errno.EPIPE:
                     # Ignore broken PIPE error
                     return
                 else:
-- 
2.43.0


From dbe35456a163aae692913c95b3f35fc96742bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:55 +0000
Subject: [PATCH 060/100] fix: FIT data messages keep the definitions known at
 their place

---
 hachoir/parser/misc/fit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 8e51f87..8fe64ab 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -86,11 +86,16 @@ class DefinitionMessage(FieldSet):
 
 class DataMessage(FieldSet):
 
+    def __init__(self, parent, name, msgDefs):
+        # Definitions known at this point of the file
+        self.msgDefs = dict(msgDefs)
+        FieldSet.__init__(self, parent, name)
+
     def createFields(self):
         hdr = NormalRecordHeader(self, "RecordHeader")
         yield hdr
         msgType = self["RecordHeader"]["msgType"].value
-        msgDef = self.parent.msgDefs[msgType]
+        msgDef = self.msgDefs[msgType]
         for n in range(msgDef["nbFields"].value):
             desc = msgDef["fieldDefinition[%d]" % n]
             typ = field_types[desc["type"].value]
@@ -167,7 +172,7 @@ class FITFile(Parser):
                 self.msgDefs[msgType] = defMsg
                 yield defMsg
             elif b == 0:
-                yield DataMessage(self, "data[]")
+                yield DataMessage(self, "data[]", self.msgDefs)
             else:
                 yield TimeStamp(self, "timestamp[]")
         yield CRC(self, "crc")
-- 
2.43.0


From c98aed42a4627e69aa494d7c4cd1697f199f18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:55 +0000
Subject: [PATCH 061/100] fix: a reset field set gets back its byte order

---
 hachoir/field/generic_field_set.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index ed533a4..4ebcfb0 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -45,6 +45,7 @@ class GenericFieldSet(BasicFieldSet):
     """
 
     _current_size = 0
+    _first_endian = None
 
     def __init__(self, parent, name, stream, description=None, size=None):
         """
@@ -63,10 +64,15 @@ class GenericFieldSet(BasicFieldSet):
         """
         BasicFieldSet.__init__(self, parent, name, stream, description, size)
         self._fields = Dict()
-        self._field_generator = self.createFields()
+        self._field_generator = self._startFields()
         self._array_cache = {}
         self.__is_feeding = False
 
+    def _startFields(self):
+        # createFields() may change the endian: reset() sets it back
+        self._first_endian = self.endian
+        yield from self.createFields()
+
     def array(self, key):
         try:
             return self._array_cache[key]
@@ -86,8 +92,10 @@ class GenericFieldSet(BasicFieldSet):
         But keep: name, value, description and size.
         """
         BasicFieldSet.reset(self)
+        if self._first_endian is not None:
+            self.endian = self._first_endian
         self._fields = Dict()
-        self._field_generator = self.createFields()
+        self._field_generator = self._startFields()
         self._current_size = 0
         self._array_cache = {}
 
-- 
2.43.0


From 3aa3c9d4db48b20fb9bb168566dc9258067c0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:55 +0000
Subject: [PATCH 062/100] fix: fragments survive a reset

---
 hachoir/field/fragment.py | 20 ++++++++++++++++++++
 hachoir/field/link.py     | 11 +++++++++++
 2 files changed, 31 insertions(+)

diff --git a/hachoir/field/fragment.py b/hachoir/field/fragment.py
index 43fb6bb..7647e88 100644
--- a/hachoir/field/fragment.py
+++ b/hachoir/field/fragment.py
@@ -2,14 +2,34 @@ from hachoir.field import FieldSet, RawBytes
 from hachoir.stream import StringInputStream
 
 
+def isAttached(field):
+    """
+    Is the field still in the tree? A field set forgets its fields on reset().
+    """
+    while field.parent is not None:
+        fields = field.parent._fields
+        if field.name not in fields or fields[field.name] is not field:
+            return False
+        field = field.parent
+    return True
+
+
 class FragmentGroup:
 
     def __init__(self, parser):
         self.items = []
+        self.positions = {}
         self.parser = parser
         self.args = {}
 
     def add(self, item):
+        positions = self.positions.setdefault(item.absolute_address, [])
+        for index in positions:
+            if not isAttached(self.items[index]):
+                # A field set was reset: the fragment is created again
+                self.items[index] = item
+                return
+        positions.append(len(self.items))
         self.items.append(item)
 
     def createInputStream(self):
diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index dbdb092..f0424a3 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -40,6 +40,7 @@ class Fragments:
 
 class Fragment(FieldSet):
     _first = None
+    _links_from_fields = False
 
     def __init__(self, *args, **kw):
         FieldSet.__init__(self, *args, **kw)
@@ -47,6 +48,15 @@ class Fragment(FieldSet):
         if self.__class__.createFields == Fragment.createFields:
             self._getData = lambda: self
 
+    def reset(self):
+        FieldSet.reset(self)
+        if self._links_from_fields:
+            # setLinks() will be called again by createFields()
+            self._first = None
+            self.__dict__.pop("_next", None)
+            self.__dict__.pop("_feedLinks", None)
+        self._field_generator = self._createFields(self._field_generator)
+
     def getData(self):
         try:
             return self._getData()
@@ -83,6 +93,7 @@ class Fragment(FieldSet):
 
     def _createFields(self, field_generator):
         if self._first is None:
+            self._links_from_fields = True
             for field in field_generator:
                 if self._first is not None:
                     break
-- 
2.43.0


From 2c2717e8c76fb3997b1a18cded88d47b9582de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:34 +0000
Subject: [PATCH 063/100] fix: magics of PACK, PDF and CR2 files
 (hachoir-subfile failed)

---
 hachoir/parser/image/cr2.py     | 2 +-
 hachoir/parser/misc/git_pack.py | 2 +-
 hachoir/parser/misc/pdf.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/image/cr2.py b/hachoir/parser/image/cr2.py
index 5cc3299..c7c5866 100644
--- a/hachoir/parser/image/cr2.py
+++ b/hachoir/parser/image/cr2.py
@@ -43,7 +43,7 @@ class CR2File(RootSeekableFieldSet, Parser):
         "file_ext": ("cr2",),
         "mime": ("image/x-canon-cr2",),
         "min_size": 15,
-        "magic": ((b"CR", 8),),
+        "magic": ((b"CR", 8 * 8),),
         "description": "Canon CR2 raw image data, version 2.0"
     }
 
diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index e540eb2..644105c 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -218,7 +218,7 @@ class GitPackFile(Parser):
         "file_ext": (".pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
-        "magic": ((b'PACK',),),
+        "magic": ((b'PACK', 0),),
         "description": "Git pack file",
     }
 
diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index 73c491e..b864f2b 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -484,7 +484,7 @@ class PDFDocument(Parser):
         "file_ext": ("pdf",),
         "mime": ("application/pdf",),
         "min_size": (5 + 4) * 8,
-        "magic": ((MAGIC, 5),),
+        "magic": ((MAGIC, 0),),
         "description": "Portable Document Format (PDF) document"
     }
 
-- 
2.43.0


From 9f6dff1cb4c3483d02207e8457c8e259a8ccd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:34 +0000
Subject: [PATCH 064/100] fix: search of subfiles without choice of the parsers

---
 hachoir/subfile/search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7ae929..f7a1313 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -98,13 +98,13 @@ class SearchSubfile:
         return (not main_error)
 
     def mainHeader(self):
-        # Fix slice size if needed
-        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
-
         # Load parsers if none has been choosen
         if not self.patterns:
             self.loadParsers()
 
+        # Fix slice size if needed
+        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
+
         bytes = (self.size - self.start_offset) // 8
         print("[+] Start search on %s bytes (%s)" % (
             bytes, humanFilesize(bytes)), file=stderr)
-- 
2.43.0


From a6c4e8ebced10e73736314fb57a6a1de35252401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:34 +0000
Subject: [PATCH 065/100] fix: subfile search finds a magic which straddles two
 slices

---
 hachoir/subfile/pattern.py | 7 ++++++-
 hachoir/subfile/search.py  | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index a2b1d7b..f6aa060 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -31,6 +31,11 @@ class HachoirPatternMatching(PatternMatching):
                 self.addRegex(regex.decode('latin1'), (offset, parser))
         self.commit()
 
-    def search(self, data):
+    def search(self, data, size=None):
+        """
+        Search the magics which begin in the first size bytes of data
+        """
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
+            if size is not None and size <= start:
+                break
             yield (item.user[1], start * 8 - item.user[0])
diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7a1313..21aeb39 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -179,8 +179,11 @@ class SearchSubfile:
         start = offset
         end = start + self.slice_size
         end = min(end, self.size)
-        data = self.stream.readBytes(start, (end - start) // 8)
-        for parser_cls, offset in self.patterns.search(data):
+        # A magic may begin in this slice and end in the next one
+        last = min(end + (self.patterns.max_length - 1) * 8, self.size)
+        last = max(end, last)
+        data = self.stream.readBytes(start, (last - start) // 8)
+        for parser_cls, offset in self.patterns.search(data, (end - start) // 8):
             offset += start
             # Skip invalid offset
             if offset < 0:
-- 
2.43.0


From 987fdb5845cc8be5ef90abd5240660a6d00f5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:34 +0000
Subject: [PATCH 066/100] fix: subfile search closes the files it writes

---
 hachoir/subfile/output.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hachoir/subfile/output.py b/hachoir/subfile/output.py
index d079839..83e7072 100644
--- a/hachoir/subfile/output.py
+++ b/hachoir/subfile/output.py
@@ -38,11 +38,10 @@ class Output:
 
         # Create output file
         filename = path.join(self.directory, filename)
-        output = FileOutputStream(filename)
-
         # Write output
-        try:
-            output.copyBytesFrom(stream, offset, size // 8)
-        except StreamError as err:
-            error("copyBytesFrom() error: %s" % err)
+        with FileOutputStream(filename) as output:
+            try:
+                output.copyBytesFrom(stream, offset, size // 8)
+            except StreamError as err:
+                error("copyBytesFrom() error: %s" % err)
         return filename
-- 
2.43.0


From f049f9aac951ff60972e4cf0319b36469a9c92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:34 +0000
Subject: [PATCH 067/100] fix: dot of the magic regex matches any byte

---
 hachoir/regex/pattern.py   | 14 +++++++++-----
 hachoir/regex/regex.py     |  4 ++--
 hachoir/subfile/pattern.py |  4 +++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index 99a282b..b12981c 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -32,9 +32,10 @@ class RegexPattern(Pattern):
     Regular expression pattern
     """
 
-    def __init__(self, regex, user=None):
+    def __init__(self, regex, user=None, flags=0):
         Pattern.__init__(self, user)
         self.regex = parse(regex)
+        self.flags = flags
         self._compiled_regex = None
 
     def __str__(self):
@@ -48,7 +49,8 @@ class RegexPattern(Pattern):
 
     def _getCompiledRegex(self):
         if self._compiled_regex is None:
-            self._compiled_regex = self.regex.compile(python=True)
+            self._compiled_regex = self.regex.compile(
+                self.flags, python=True)
         return self._compiled_regex
     compiled_regex = property(_getCompiledRegex)
 
@@ -74,7 +76,9 @@ class PatternMatching:
     (4, 6, <RegexPattern '[cd]e'>)
     """
 
-    def __init__(self):
+    def __init__(self, flags=0):
+        # Flags used to compile the regex (see re module)
+        self.flags = flags
         self.string_patterns = []
         self.string_dict = {}
         self.regex_patterns = []
@@ -109,7 +113,7 @@ class PatternMatching:
         if not regex:
             regex = RegexEmpty()
         self._regex = regex
-        self._compiled_regex = regex.compile(python=True)
+        self._compiled_regex = regex.compile(self.flags, python=True)
         self._max_length = length
 
     def addString(self, magic, user=None):
@@ -122,7 +126,7 @@ class PatternMatching:
         self._need_commit = True
 
     def addRegex(self, regex, user=None):
-        item = RegexPattern(regex, user)
+        item = RegexPattern(regex, user, self.flags)
         if item.regex.maxLength() is None:
             raise ValueError(
                 "Regular expression with no maximum size is forbidden")
diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 00bb613..f9e46ae 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -256,8 +256,8 @@ class Regex:
         raise NotImplementedError(
             "Class %s has no method _eq()" % self.__class__.__name__)
 
-    def compile(self, **kw):
-        return re.compile(self.__str__(**kw))
+    def compile(self, flags=0, **kw):
+        return re.compile(self.__str__(**kw), flags)
 
     def findPrefix(self, regex):
         """
diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index f6aa060..cbff9d9 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -1,5 +1,6 @@
 from hachoir.parser import QueryParser
 from hachoir.regex import PatternMatching
+import re
 
 
 # XXX hachoir.regex uses str but the rest of hachoir uses bytes,
@@ -8,7 +9,8 @@ from hachoir.regex import PatternMatching
 class HachoirPatternMatching(PatternMatching):
 
     def __init__(self, categories=None, parser_ids=None):
-        PatternMatching.__init__(self)
+        # The dot has to match any byte, newline included
+        PatternMatching.__init__(self, re.DOTALL)
 
         # Load parser list
         tags = []
-- 
2.43.0


From cd83eee8dfc16a9ea3850148bc2cf5cf1a9fad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:29 +0000
Subject: [PATCH 068/100] fix: magic regex of icons skips the second byte of
 the planes

---
 hachoir/parser/image/ico.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/ico.py b/hachoir/parser/image/ico.py
index 63556e0..8017288 100644
--- a/hachoir/parser/image/ico.py
+++ b/hachoir/parser/image/ico.py
@@ -83,7 +83,7 @@ class IcoFile(Parser):
             # size=(16x16|32x32|48x48|64x64),
             b"(\x10\x10|\x20\x20|\x30\x30|\x40\x40)"
             # nb_color=0 or 16; nb_plane=(0|1|4), bpp=(0|8|24|32)
-            b"[\x00\x10]\0[\0\1\4][\0\x08\x18\x20]\0",
+            b"[\x00\x10]\0[\0\1\4]\0[\0\x08\x18\x20]\0",
             0),),
         "description": "Microsoft Windows icon or cursor",
     }
-- 
2.43.0


From b96609a0bea224e56ff51190494ac1f486d204cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:11 +0000
Subject: [PATCH 069/100] fix: statistics of hachoir-subfile in debug mode

---
 hachoir/subfile/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/subfile/main.py b/hachoir/subfile/main.py
index fe89581..e07facd 100644
--- a/hachoir/subfile/main.py
+++ b/hachoir/subfile/main.py
@@ -41,7 +41,7 @@ def parseOptions():
 
 
 def displaySearchStat(subfile):
-    stats = [(parser.tags["id"], stats[0], stats[1])
+    stats = [(parser.getParserTags()["id"], stats[0], stats[1])
              for parser, stats in subfile.stats.items()]
     print()
     print("[ Match statistics ]")
-- 
2.43.0


From 7dc38222cee0a0867b39e9766ac85e9ae157ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:18 +0000
Subject: [PATCH 070/100] fix: filename suffix of OpenOffice and damaged
 documents

---
 hachoir/parser/archive/zip.py | 2 +-
 hachoir/parser/parser.py      | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 4a8f4e0..14b590b 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -467,7 +467,7 @@ class ZipFile(Parser):
 
     def createFilenameSuffix(self):
         if self["file[0]/filename"].value == "mimetype":
-            mime = self["file[0]/compressed_data"].value
+            mime = makeUnicode(self["file[0]/data"].value)
             if mime in self.MIME_TYPES:
                 return "." + self.MIME_TYPES[mime]
         return ".zip"
diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index a00bf76..dbc30b0 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -124,8 +124,12 @@ class HachoirParser(object):
 
     def _getFilenameSuffix(self):
         if not hasattr(self, "_filename_suffix"):
-            self._filename_extension = self.createFilenameSuffix()
-        return self._filename_extension
+            try:
+                self._filename_suffix = self.createFilenameSuffix()
+            except Exception as err:
+                self.error("Error when creating filename suffix: %s" % err)
+                self._filename_suffix = HachoirParser.createFilenameSuffix(self)
+        return self._filename_suffix
     filename_suffix = property(_getFilenameSuffix)
 
     @classmethod
-- 
2.43.0


From d6d7647d5788ac410b77bac239f8825ae1282ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:40 +0000
Subject: [PATCH 071/100] fix: FLAC metadata lost when the header of a block is
 truncated

---
 hachoir/parser/audio/flac.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/parser/audio/flac.py b/hachoir/parser/audio/flac.py
index 9a43569..4557d27 100644
--- a/hachoir/parser/audio/flac.py
+++ b/hachoir/parser/audio/flac.py
@@ -64,6 +64,7 @@ class MetadataBlock(FieldSet):
         6: ("picture[]", "Picture", None),
     }
     BLOCK_TYPE_DESC = createDict(BLOCK_TYPES, 1)
+    HEADER_SIZE = 32    # bits
 
     def __init__(self, *args, **kw):
         FieldSet.__init__(self, *args, **kw)
@@ -99,6 +100,10 @@ class Metadata(FieldSet):
 
     def createFields(self):
         while not self.eof:
+            # Truncated block header?
+            end = self.absolute_address + self.current_size
+            if not self.stream.sizeGe(end + MetadataBlock.HEADER_SIZE):
+                break
             field = MetadataBlock(self, "metadata_block[]")
             yield field
             if field["last_metadata_block"].value:
-- 
2.43.0


From e46074e3b5f6c981b6b2b4543e481f3b5f305f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:40 +0000
Subject: [PATCH 072/100] fix: transparency of GIF pictures

---
 hachoir/metadata/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 17654b0..ae6e13b 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -261,8 +261,8 @@ class GifMetadata(RootMetadata):
         for comments in gif.array("comments"):
             for comment in gif.array(comments.name + "/comment"):
                 self.comment = comment.value
-        if ("graphic_ctl/has_transp" in gif
-                and gif["graphic_ctl/has_transp"].value):
+        if ("graphic_ctl[0]/has_transp" in gif
+                and gif["graphic_ctl[0]/has_transp"].value):
             self.pixel_format = "Color index with transparency"
         else:
             self.pixel_format = "Color index"
-- 
2.43.0


From beaaf8cd9320bb7a2b6267db30d2371332b75316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:51 +0000
Subject: [PATCH 073/100] fix: FLAC files whose only metadata block is the
 stream info

---
 hachoir/parser/audio/flac.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/audio/flac.py b/hachoir/parser/audio/flac.py
index 4557d27..6198ac4 100644
--- a/hachoir/parser/audio/flac.py
+++ b/hachoir/parser/audio/flac.py
@@ -152,20 +152,22 @@ class Frames(FieldSet):
 
 class FlacParser(Parser):
     "Parse FLAC audio files: FLAC is a lossless audio codec"
-    MAGIC = b"fLaC\x00"
+    # Signature and type of the first metadata block: stream info, which
+    # may be the last block
+    MAGICS = (b"fLaC\x00", b"fLaC\x80")
     PARSER_TAGS = {
         "id": "flac",
         "category": "audio",
         "file_ext": ("flac",),
         "mime": ("audio/x-flac",),
-        "magic": ((MAGIC, 0),),
+        "magic": tuple((magic, 0) for magic in MAGICS),
         "min_size": 4 * 8,
         "description": "FLAC audio",
     }
     endian = BIG_ENDIAN
 
     def validate(self):
-        if self.stream.readBytes(0, len(self.MAGIC)) != self.MAGIC:
+        if self.stream.readBytes(0, 5) not in self.MAGICS:
             return "Invalid magic string"
         return True
 
-- 
2.43.0


From 32912a8d21189b1e8a2bdc7feed6c844b3d22564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:17 +0000
Subject: [PATCH 074/100] fix: parser error on a truncated padding

---
 hachoir/field/padding.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hachoir/field/padding.py b/hachoir/field/padding.py
index 4c7265c..556254c 100644
--- a/hachoir/field/padding.py
+++ b/hachoir/field/padding.py
@@ -1,6 +1,7 @@
 from hachoir.field import Bits, Bytes
 from hachoir.core.tools import makePrintable, humanFilesize
 from hachoir.core import config
+from hachoir.stream import InputStreamError
 
 
 class PaddingBits(Bits):
@@ -29,8 +30,12 @@ class PaddingBits(Bits):
             return False
 
         if self.MAX_SIZE < self._size:
-            value = self._parent.stream.readBits(
-                self.absolute_address, self.MAX_SIZE, self._parent.endian)
+            try:
+                value = self._parent.stream.readBits(
+                    self.absolute_address, self.MAX_SIZE, self._parent.endian)
+            except InputStreamError:
+                # truncated padding
+                return False
         else:
             value = self.value
         if value != 0:
@@ -80,10 +85,16 @@ class PaddingBytes(Bytes):
         if self.MAX_SIZE < self._size // 8:
             self.info("only check first %s of padding" %
                       humanFilesize(self.MAX_SIZE))
-            content = self._parent.stream.readBytes(
-                self.absolute_address, self.MAX_SIZE)
+            try:
+                content = self._parent.stream.readBytes(
+                    self.absolute_address, self.MAX_SIZE)
+            except InputStreamError:
+                content = None
         else:
             content = self.value
+        if content is None:
+            # truncated padding
+            return False
         index = 0
         pattern_len = len(self.pattern)
         while index < len(content):
-- 
2.43.0


From 0976ce9eee188c65bf31aa521da441ae4705a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:40 +0000
Subject: [PATCH 075/100] fix: resolution of BMP and PNG pictures is stated per
 meter

---
 hachoir/metadata/image.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index ae6e13b..fcb6645 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -44,8 +44,9 @@ class BmpMetadata(RootMetadata):
         self.format_version = ("Microsoft Bitmap version %s"
                                % hdr.getFormatVersion())
 
-        self.width_dpi = hdr["horizontal_dpi"].value
-        self.height_dpi = hdr["vertical_dpi"].value
+        # The header contains the number of pixels per meter
+        self.width_dpi = round(hdr["horizontal_dpi"].value * 0.0254)
+        self.height_dpi = round(hdr["vertical_dpi"].value * 0.0254)
 
         if "pixels" in image:
             computeComprRate(self, image["pixels"].size)
@@ -218,8 +219,12 @@ class PngMetadata(RootMetadata):
 
     @fault_tolerant
     def usePhysical(self, field):
-        self.width_dpi = field["pixel_per_unit_x"].value
-        self.height_dpi = field["pixel_per_unit_y"].value
+        if field["unit"].value != 1:
+            # Only an aspect ratio
+            return
+        # Number of pixels per meter
+        self.width_dpi = round(field["pixel_per_unit_x"].value * 0.0254)
+        self.height_dpi = round(field["pixel_per_unit_y"].value * 0.0254)
 
     @fault_tolerant
     def useHeader(self, header):
-- 
2.43.0


From 99ca5b3835d25b2f1621bf3b32c2859033081740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:40 +0000
Subject: [PATCH 076/100] fix: resolution of TIFF and JPEG pictures in dots per
 centimeter

---
 hachoir/metadata/image.py | 20 +++++++++++++++-----
 hachoir/metadata/jpeg.py  |  6 ++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index fcb6645..ca37099 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -59,8 +59,6 @@ class TiffMetadata(RootMetadata):
         "Software": "producer",
         "ImageDescription": "comment",
         "DocumentName": "title",
-        "XResolution": "width_dpi",
-        "YResolution": "height_dpi",
         "DateTime": "creation_date",
     }
 
@@ -75,11 +73,25 @@ class TiffMetadata(RootMetadata):
         if 'BitsPerSample' in attr and 'SamplesPerPixel' in attr:
             self.bits_per_pixel = attr[
                 'BitsPerSample'] * attr['SamplesPerPixel']
+        self.useResolution(attr)
+
+    @fault_tolerant
+    def useResolution(self, attr):
+        # Unit: 1=none (aspect ratio), 2=inch (default value), 3=centimeter
+        unit = attr.get('ResolutionUnit', 2)
+        if unit not in (2, 3):
+            return
+        factor = 1 if unit == 2 else 2.54
+        if 'XResolution' in attr:
+            self.width_dpi = round(attr['XResolution'] * factor)
+        if 'YResolution' in attr:
+            self.height_dpi = round(attr['YResolution'] * factor)
 
     @fault_tolerant
     def processIfdEntry(self, ifd, entry, attr):
         tag = entry["tag"].display
-        if tag in {"BitsPerSample", "SamplesPerPixel"}:
+        if tag in {"BitsPerSample", "SamplesPerPixel",
+                   "XResolution", "YResolution", "ResolutionUnit"}:
             value = ifd.getEntryValues(entry)[0].value
             attr[tag] = value
             return
@@ -89,8 +101,6 @@ class TiffMetadata(RootMetadata):
         except KeyError:
             return
         value = ifd.getEntryValues(entry)[0].value
-        if tag in {"XResolution", "YResolution"}:
-            value = round(value)
         setattr(self, attrname, value)
 
 
diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index bad0b97..cfb2fd7 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -170,8 +170,10 @@ class JpegMetadata(RootMetadata):
         self.format_version = "JFIF %u.%02u" \
             % (app0["ver_maj"].value, app0["ver_min"].value)
         if "y_density" in app0:
-            self.width_dpi = app0["x_density"].value
-            self.height_dpi = app0["y_density"].value
+            # Unit: 1=dots per inch, 2=dots per centimeter
+            factor = 2.54 if app0["units"].value == 2 else 1
+            self.width_dpi = round(app0["x_density"].value * factor)
+            self.height_dpi = round(app0["y_density"].value * factor)
 
     @fault_tolerant
     def processIfdEntry(self, ifd, entry):
-- 
2.43.0


From 2fd5a76f2ea71da75b5ea2bbd3ae990be67d9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:41 +0000
Subject: [PATCH 077/100] fix: PSD header contains the height before the width

---
 hachoir/parser/image/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/psd.py b/hachoir/parser/image/psd.py
index df59f6b..4cc89e4 100644
--- a/hachoir/parser/image/psd.py
+++ b/hachoir/parser/image/psd.py
@@ -60,8 +60,8 @@ class PsdFile(Parser):
         yield UInt16(self, "version")
         yield NullBytes(self, "reserved[]", 6)
         yield UInt16(self, "nb_channels")
-        yield UInt32(self, "width")
         yield UInt32(self, "height")
+        yield UInt32(self, "width")
         yield UInt16(self, "depth")
         yield Enum(UInt16(self, "color_mode"), self.COLOR_MODE)
 
-- 
2.43.0


From ce4d7739f9983dc7afa6aec1f39ee3aae205d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:52 +0000
Subject: [PATCH 078/100] fix: size of PCX pictures which do not begin at (0,
 0)

---
 hachoir/metadata/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index ca37099..5faa55c 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -148,8 +148,8 @@ class PcxMetadata(RootMetadata):
 
     @fault_tolerant
     def extract(self, pcx):
-        self.width = 1 + pcx["xmax"].value
-        self.height = 1 + pcx["ymax"].value
+        self.width = 1 + pcx["xmax"].value - pcx["xmin"].value
+        self.height = 1 + pcx["ymax"].value - pcx["ymin"].value
         self.width_dpi = pcx["horiz_dpi"].value
         self.height_dpi = pcx["vert_dpi"].value
         self.bits_per_pixel = pcx["bpp"].value
-- 
2.43.0


From 18c20666e33e6c37e4b0507399063fe00f906578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:52 +0000
Subject: [PATCH 079/100] fix: bits per pixel of PCX pictures with several
 color plans

---
 hachoir/metadata/image.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 5faa55c..450655a 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -152,9 +152,11 @@ class PcxMetadata(RootMetadata):
         self.height = 1 + pcx["ymax"].value - pcx["ymin"].value
         self.width_dpi = pcx["horiz_dpi"].value
         self.height_dpi = pcx["vert_dpi"].value
-        self.bits_per_pixel = pcx["bpp"].value
-        if 1 <= pcx["bpp"].value <= 8:
-            self.nb_colors = 2 ** pcx["bpp"].value
+        # The bits of a pixel are in one or several plans
+        bpp = pcx["bpp"].value * (pcx["nb_color_plan"].value or 1)
+        self.bits_per_pixel = bpp
+        if 1 <= bpp <= 8:
+            self.nb_colors = 2 ** bpp
         self.compression = "Run-length encoding (RLE)"
         self.format_version = "PCX: %s" % pcx["version"].display
         if "image_data" in pcx:
-- 
2.43.0


From 22229c434cfd5c5f184abf18599a230ae2975ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:52 +0000
Subject: [PATCH 080/100] fix: pixel format of PNG pictures without color

---
 hachoir/metadata/image.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 450655a..99548ce 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -249,7 +249,12 @@ class PngMetadata(RootMetadata):
         else:
             nb_colors = None
         if not header["has_palette"].value:
-            if header["has_alpha"].value:
+            if not header["color"].value:
+                if header["has_alpha"].value:
+                    self.pixel_format = "Grayscale with alpha"
+                else:
+                    self.pixel_format = "Grayscale"
+            elif header["has_alpha"].value:
                 self.pixel_format = "RGBA"
             else:
                 self.pixel_format = "RGB"
-- 
2.43.0


From 297408994a2fcf74bb0ca6602809777e92d9e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:50 +0000
Subject: [PATCH 081/100] fix: keep the precision of 64-bit Windows and UUID
 dates

value / 10 is a float: a date of today has more tenths of microseconds
than a float can hold, so that the date was wrong by some microseconds.
---
 hachoir/core/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/core/tools.py b/hachoir/core/tools.py
index 43575f2..8e7af40 100644
--- a/hachoir/core/tools.py
+++ b/hachoir/core/tools.py
@@ -533,7 +533,7 @@ def durationWin64(value):
         raise TypeError("an integer or float is required")
     if value < 0:
         raise ValueError("value have to be a positive or nul integer")
-    return timedelta(microseconds=value / 10)
+    return timedelta(microseconds=value // 10)
 
 
 def durationMillisWin64(value):
@@ -596,7 +596,7 @@ def timestampUUID60(value):
     if value < 0:
         raise ValueError("value have to be a positive or nul integer")
     try:
-        return UUID60_TIMESTAMP_T0 + timedelta(microseconds=value / 10)
+        return UUID60_TIMESTAMP_T0 + timedelta(microseconds=value // 10)
     except OverflowError:
         raise ValueError("timestampUUID60() overflow (value=%s)" % value)
 
-- 
2.43.0


From 563703f75d3ffdff905c3e639b913e76c24ee6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:42 +0000
Subject: [PATCH 082/100] fix: escape the text of strings of unknown charset

The display of a string without charset had raw control characters when
it was asked before the value, because the charset is guessed by reading
the value.
---
 hachoir/field/string_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 6a60b58..21bf5b6 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -318,10 +318,11 @@ class GenericString(Bytes):
             if self._raw_value is None:
                 self._raw_value = GenericString.createValue(self, False)
             value = makePrintable(self._raw_value, "ASCII")
-        elif self._charset:
-            value = makePrintable(self.value, "ISO-8859-1")
         else:
+            # Reading the value guesses the charset when it is unknown
             value = self.value
+            if self._charset:
+                value = makePrintable(value, "ISO-8859-1")
         if config.max_string_length < len(value):
             # Truncate string if needed
             value = "%s(...)" % value[:config.max_string_length]
-- 
2.43.0


From c8babda4dd56bad9f2006d1dd06b6fce24b3ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:42 +0000
Subject: [PATCH 083/100] fix: mark every truncated display of raw bytes

The length of the escaped text was compared with the size of the field:
20 NUL bytes were shown as 14 without the truncation mark.
---
 hachoir/field/byte_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/byte_field.py b/hachoir/field/byte_field.py
index e0bdb08..ad23b70 100644
--- a/hachoir/field/byte_field.py
+++ b/hachoir/field/byte_field.py
@@ -35,7 +35,7 @@ class RawBytes(Field):
                 length = min(self._size // 8, max_bytes)
                 self._display = self._parent.stream.readBytes(address, length)
             display = makePrintable(self._display, "ASCII")
-        truncated = (8 * len(display) < self._size)
+        truncated = (8 * max_bytes < self._size)
         if human:
             if truncated:
                 display += "(...)"
-- 
2.43.0


From 0bf571550a1a6d7e0a27c83968f7df8cf254c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:43 +0000
Subject: [PATCH 084/100] fix: parse WMF pictures of 44 or 45 bytes

The EMF signature takes 6 bytes at offset 40: looking for it in a shorter
picture failed, and nothing was parsed.
---
 hachoir/parser/image/wmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 2a60951..a751569 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -604,9 +604,9 @@ class WMF_File(Parser):
         """File is in EMF format?"""
         if 1 <= self.current_length:
             return self[0].name == "emf_header"
-        if self.size < 44 * 8:
-            return False
         magic = EMF_Header.MAGIC
+        if self.size < (40 + len(magic)) * 8:
+            return False
         return self.stream.readBytes(40 * 8, len(magic)) == magic
 
     def isAPM(self):
-- 
2.43.0


From 30a41e8eb6abe07ef87a008b451cca70f4f3f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:16 +0000
Subject: [PATCH 085/100] fix: keep the value of UUID dates

Their rounding is pinned by the test suite (test_chm and the doctest of
timestampUUID60()): take back that part of 2974089.
---
 hachoir/core/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/core/tools.py b/hachoir/core/tools.py
index 8e7af40..860b354 100644
--- a/hachoir/core/tools.py
+++ b/hachoir/core/tools.py
@@ -596,7 +596,7 @@ def timestampUUID60(value):
     if value < 0:
         raise ValueError("value have to be a positive or nul integer")
     try:
-        return UUID60_TIMESTAMP_T0 + timedelta(microseconds=value // 10)
+        return UUID60_TIMESTAMP_T0 + timedelta(microseconds=value / 10)
     except OverflowError:
         raise ValueError("timestampUUID60() overflow (value=%s)" % value)
 
-- 
2.43.0


From 378255956d6a1017261a391e8940e6fd309e7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:49 +0000
Subject: [PATCH 086/100] fix: error when the file is not longer than the
 offset

hachoir-list --offset ended with a traceback of ValueError instead of its
message "Unable to open file".
---
 hachoir/stream/input_helper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/stream/input_helper.py b/hachoir/stream/input_helper.py
index bf5a912..c4ce30d 100644
--- a/hachoir/stream/input_helper.py
+++ b/hachoir/stream/input_helper.py
@@ -32,7 +32,11 @@ def FileInputStream(filename, real_filename=None, **args):
         if size:
             size = 8 * size
         stream = InputIOStream(inputio, source=source, **args)
-        return InputSubStream(stream, 8 * offset, size, **args)
+        try:
+            return InputSubStream(stream, 8 * offset, size, **args)
+        except ValueError as err:
+            raise InputStreamError(
+                "Unable to open file %s: %s" % (filename, err))
     else:
         # (the list of the caller is not changed)
         args["tags"] = list(args.get("tags", ())) + [("filename", filename)]
-- 
2.43.0


From 74d77cf7f6bad0bfd10c3a3fe9fc1d2ecc90174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:49 +0000
Subject: [PATCH 087/100] fix: hachoir-strip goes on after a file which can't
 be opened

---
 hachoir/strip.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index 4959d62..8b3e88d 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -8,7 +8,9 @@ Creation: 17 september 2006
 
 from hachoir.field import MissingField
 from hachoir.editor import createEditor
-from hachoir.stream import FileOutputStream, StringOutputStream
+from hachoir.stream import (FileOutputStream, StringOutputStream,
+                            InputStreamError)
+from hachoir.core.error import error
 from hachoir.core.tools import humanFilesize
 from hachoir.core.cmd_line import displayVersion
 from hachoir.parser import createParser
@@ -286,7 +288,11 @@ def main():
     ok = True
     for filename in filenames:
         print("[+]", ("Process file %s" % filename))
-        parser = createParser(filename)
+        try:
+            parser = createParser(filename)
+        except InputStreamError as err:
+            error(str(err))
+            parser = None
         if parser:
             editor = createEditor(parser)
             ok &= stripEditor(editor, filename + ".new",
-- 
2.43.0


From 7d2ad533fd88af7dba42651d981252102b3c4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:49 +0000
Subject: [PATCH 088/100] fix: try parsers in the same order in every run

QueryParser kept them in a set of classes, whose order depends on memory
addresses: data which several parsers accept was a PNG picture in one run
and a MPEG TS in another one.
---
 hachoir/parser/guess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index b547cdb..cd52a27 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -20,7 +20,8 @@ class QueryParser(object):
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
-        self.parsers = set(self.db)
+        # (a list: the order of a set changes from one run to another)
+        self.parsers = list(self.db)
         parsers = []
         for tag in tags:
             if not self.parsers:
-- 
2.43.0


From 3badebc4dbae389959b839804f90d853c6398b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:35 +0000
Subject: [PATCH 089/100] fix: zlib: stored blocks are part of the uncompressed
 data

---
 hachoir/parser/archive/zlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/parser/archive/zlib.py b/hachoir/parser/archive/zlib.py
index 302efbd..5d93f6d 100644
--- a/hachoir/parser/archive/zlib.py
+++ b/hachoir/parser/archive/zlib.py
@@ -157,6 +157,7 @@ class DeflateBlock(FieldSet):
             # null stored blocks produced by some encoders (e.g. PIL)
             if self["len"].value:
                 yield RawBytes(self, "data", self["len"].value, "Uncompressed data")
+                self.uncomp_data += self["data"].value
             return
         elif self["compression_type"].value == 1:  # Fixed Huffman
             length_tree = {}  # (size, huffman code): value
-- 
2.43.0


From b9abcfee89c796ec53d55ee616bf21c6f70d869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:35 +0000
Subject: [PATCH 090/100] fix: cab: uncompressed and MSZIP folders are read as
 bytes

---
 hachoir/parser/archive/cab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 0d4c0d5..9bf5940 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -169,7 +169,7 @@ class FolderData(FieldSet):
         self.folder = folder  # Folder fieldset
 
     def createFields(self):
-        self.uncompressed_data = ""
+        self.uncompressed_data = b""
         for index in range(self.folder["data_blocks"].value):
             block = DataBlock(self, "block[]")
             for i in block:
-- 
2.43.0


From 2a43e7848bab3b816504a91e9f3f4ce7cee67713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:35 +0000
Subject: [PATCH 091/100] fix: cab: list the files of each folder

---
 hachoir/parser/archive/cab.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 9bf5940..948610d 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -246,16 +246,16 @@ class CabFile(Parser):
             padding = self.seekByte(folder["offset"].value)
             if padding:
                 yield padding
-            files = []
+            folder_files = []
             for file in files:
                 if file["folder_index"].value == index:
-                    files.append(file)
+                    folder_files.append(file)
             if i + 1 == len(folders):
                 size = (self.size // 8) - folder["offset"].value
             else:
                 size = (folders[i + 1][1]["offset"].value) - \
                     folder["offset"].value
-            yield FolderData(self, "folder_data[%i]" % index, folder, files, size=size * 8)
+            yield FolderData(self, "folder_data[%i]" % index, folder, folder_files, size=size * 8)
 
         end = self.seekBit(self.size, "endraw")
         if end:
-- 
2.43.0


From 279e2d03d4bbc28c95d6205abcb3d3dab8bf21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:23 +0000
Subject: [PATCH 092/100] fix: zlib: the code lengths of a dynamic block are a
 single sequence

---
 hachoir/parser/archive/zlib.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hachoir/parser/archive/zlib.py b/hachoir/parser/archive/zlib.py
index 5d93f6d..234ef87 100644
--- a/hachoir/parser/archive/zlib.py
+++ b/hachoir/parser/archive/zlib.py
@@ -183,18 +183,18 @@ class DeflateBlock(FieldSet):
                 yield field
                 code_length_code_lengths[i] = field.value
             code_length_tree = build_tree(code_length_code_lengths)
-            length_code_lengths = []
-            distance_code_lengths = []
-            for numcodes, name, lengths in (
-                (self["huff_num_length_codes"].value +
-                 257, "length", length_code_lengths),
-                    (self["huff_num_distance_codes"].value + 1, "distance", distance_code_lengths)):
+            # the code lengths form a single sequence: a repeat code can cross
+            # from the literal/length codes to the distance codes
+            lengths = []
+            nb_length = self["huff_num_length_codes"].value + 257
+            nb_distance = self["huff_num_distance_codes"].value + 1
+            for numcodes, name in ((nb_length, "length"),
+                                   (nb_length + nb_distance, "distance")):
                 while len(lengths) < numcodes:
                     field = HuffmanCode(self, "huff_%s_code[]" %
                                         name, code_length_tree)
                     value = field.realvalue
                     if value < 16:
-                        prev_value = value
                         field._description = "Literal Code Length %i (Huffman Code %i)" % (
                             value, field.value)
                         yield field
@@ -204,7 +204,9 @@ class DeflateBlock(FieldSet):
                                 17: (3, 10, 3),
                                 18: (11, 138, 7)}[value]
                         if value == 16:
-                            repvalue = prev_value
+                            if not lengths:
+                                raise ParserError("No previous code length to repeat!")
+                            repvalue = lengths[-1]
                         else:
                             repvalue = 0
                         field._description = "Repeat Code %i, Repeating value (%i) %i to %i times (Huffman Code %i)" % (
@@ -217,6 +219,8 @@ class DeflateBlock(FieldSet):
                             extrafield.value, num_repeats)
                         yield extrafield
                         lengths += [repvalue] * num_repeats
+            length_code_lengths = lengths[:nb_length]
+            distance_code_lengths = lengths[nb_length:]
             length_tree = build_tree(length_code_lengths)
             distance_tree = build_tree(distance_code_lengths)
         else:
-- 
2.43.0


From cd9ed497873568eb407fa1c0f6b27bbbb8bdbcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:53 +0000
Subject: [PATCH 093/100] fix: zip: read entries whose sizes are behind their
 data

---
 hachoir/parser/archive/zip.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 14b590b..d88602c 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -278,10 +278,11 @@ class FileEntry(FieldSet):
         # Non-seekable output, search the next data descriptor
         size = self.stream.searchBytesLength(ZipDataDescriptor.HEADER_STRING, False,
                                              self.absolute_address + self.current_size)
-        if size <= 0:
+        if size is None:
             raise ParserError("Couldn't resync to %s" %
                               ZipDataDescriptor.HEADER_STRING)
-        yield self.data(size)
+        if size:
+            yield self.data(size)
         yield textHandler(UInt32(self, "header[]", "Header"), hexadecimal)
         data_desc = ZipDataDescriptor(self, "data_desc", "Data descriptor")
         # self.info("Resynced!")
@@ -306,12 +307,15 @@ class FileEntry(FieldSet):
             yield ExtraFields(self, "extra", size=self["extra_length"].value * 8,
                               description="Extra fields")
         size = self["compressed_size"].value
+        has_descriptor = (self["flags/has_descriptor"].value
+                          and self['crc32'].value == 0)
         if size > 0:
             yield self.data(size)
-        elif self["flags/incomplete"].value:
+            if has_descriptor:
+                yield ZipDataDescriptor(self, "data_desc", "Data descriptor")
+        elif has_descriptor or self["flags/incomplete"].value:
+            # The sizes are only known from the descriptor behind the data
             yield from self.resync()
-        if self["flags/has_descriptor"].value and self['crc32'].value == 0:
-            yield ZipDataDescriptor(self, "data_desc", "Data descriptor")
 
     def createDescription(self):
         return "File entry: %s (%s)" % \
-- 
2.43.0


From e800803a57d8a31dbc772b6948dc2c95e97acf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 094/100] fix: cab: a MSZIP data block can hold more than one
 deflate block

---
 hachoir/parser/archive/cab.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 948610d..da93a98 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -119,11 +119,15 @@ class DataBlock(FieldSet):
             self.parent.uncompressed_data += self["data"].value
         elif compr_method == 1:  # MSZIP
             yield String(self, "mszip_signature", 2, "MSZIP Signature (CK)")
-            yield DeflateBlock(self, "deflate_block", self.parent.uncompressed_data)
+            block = DeflateBlock(self, "deflate_block", self.parent.uncompressed_data)
+            yield block
+            while not block["final"].value:
+                block = DeflateBlock(self, "deflate_block[]", block.uncomp_data)
+                yield block
             padding = paddingSize(self.current_size, 8)
             if padding:
                 yield PaddingBits(self, "padding[]", padding)
-            self.parent.uncompressed_data = self["deflate_block"].uncomp_data
+            self.parent.uncompressed_data = block.uncomp_data
         elif compr_method == 2:  # Quantum
             yield RawBytes(self, "compr_data", self["size"].value, "Compressed Folder Data")
         elif compr_method == 3:  # LZX
-- 
2.43.0


From 474bf9f6966552342b20c4b5da31f7493367df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:09 +0000
Subject: [PATCH 095/100] fix: metadata: cab: report the compression of MSZIP
 cabinets

A folder has a compression level only if it is compressed using Quantum or
LZX: asking for it failed, and the compression "Deflate" was not reported.
---
 hachoir/metadata/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/archive.py b/hachoir/metadata/archive.py
index 4905f31..331ab61 100644
--- a/hachoir/metadata/archive.py
+++ b/hachoir/metadata/archive.py
@@ -149,7 +149,7 @@ class CabMetadata(MultipleMetadata):
     @fault_tolerant
     def useFolder(self, folder):
         compr = folder["compr_method"].display
-        if folder["compr_method"].value != 0:
+        if "compr_level" in folder:
             compr += " (level %u)" % folder["compr_level"].value
         self.compression = compr
 
-- 
2.43.0


From 972421ed458628592561762ab35a691bdb26a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:21 +0000
Subject: [PATCH 096/100] fix: metadata: asf: report author and copyright of a
 file without title

---
 hachoir/metadata/video.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 41fd002..37bc93a 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -338,12 +338,12 @@ class AsfMetadata(MultipleMetadata):
 
         if "metadata/content" in header:
             info = header["metadata/content"]
-            try:
-                self.title = info["title"].value
-                self.author = info["author"].value
-                self.copyright = info["copyright"].value
-            except MissingField:
-                pass
+            for key in ("title", "author", "copyright"):
+                try:
+                    setattr(self, key, info[key].value)
+                except MissingField:
+                    # An empty text has no field
+                    pass
 
     @fault_tolerant
     def streamAudioHeader(self, audio, meta):
-- 
2.43.0


From deeff213a7ec7813fe46c88cfc2d8fe13045d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:21 +0000
Subject: [PATCH 097/100] fix: metadata: asf: look up the bit rate of a stream
 by its number

The bit rates were those of other streams if they are not listed in the
order of the streams.
---
 hachoir/metadata/video.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index 37bc93a..cba5728 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -397,10 +397,14 @@ class AsfMetadata(MultipleMetadata):
             text = "%s (max)" % text
         self.bit_rate = (value, text)
 
+    @fault_tolerant
     def streamProperty(self, header, index, meta):
-        key = "bit_rates/content/bit_rate[%u]/avg_bitrate" % index
-        if key in header:
-            meta.bit_rate = header[key].value
+        # The bit rates are listed by stream number, in any order
+        number = header["stream_prop[%u]/content/stream_index" % index].value
+        for bit_rate in header.array("bit_rates/content/bit_rate"):
+            if bit_rate["stream_index"].value == number:
+                meta.bit_rate = bit_rate["avg_bitrate"].value
+                break
 
         # TODO: Use codec list
         # It doesn't work when the video uses /header/content/bitrate_mutex
-- 
2.43.0


From 84d00b427272c7b8e15633766eb26ba25127fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:21 +0000
Subject: [PATCH 098/100] fix: metadata: asf: WM/TrackNumber is the track
 number, not the total

---
 hachoir/metadata/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/video.py b/hachoir/metadata/video.py
index cba5728..6a286fc 100644
--- a/hachoir/metadata/video.py
+++ b/hachoir/metadata/video.py
@@ -259,7 +259,7 @@ class AsfMetadata(MultipleMetadata):
         "ToolName": "producer",
         "AlbumTitle": "album",
         "Track": "track_number",
-        "TrackNumber": "track_total",
+        "TrackNumber": "track_number",
         "Year": "creation_date",
         "AlbumArtist": "author",
     }
-- 
2.43.0


From d78652d68a3daaf03823d3811926bbb36f5127ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:27 +0000
Subject: [PATCH 099/100] fix: exe: keep the version information of a truncated
 file

The node of the version resource is the first field of its parent: larger
than its parent, it was dropped with everything it contains.
---
 hachoir/parser/program/exe_res.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/program/exe_res.py b/hachoir/parser/program/exe_res.py
index e943b81..a0fc241 100644
--- a/hachoir/parser/program/exe_res.py
+++ b/hachoir/parser/program/exe_res.py
@@ -124,7 +124,9 @@ class VersionInfoNode(FieldSet):
 
     def __init__(self, parent, name, is_32bit=True):
         FieldSet.__init__(self, parent, name)
-        self._size = alignValue(self["size"].value, 4) * 8
+        size = alignValue(self["size"].value, 4) * 8
+        # Keep the beginning of the node if the file is truncated
+        self._size = min(size, parent.size - parent.current_size)
         self.is_32bit = is_32bit
 
     def createFields(self):
-- 
2.43.0


From 29118d428d6b5d9083428cfbe0544dcb6e3bfb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:33 +0000
Subject: [PATCH 100/100] fix: metadata: exe: a damaged text of the version
 information does not lose the others

---
 hachoir/metadata/program.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/program.py b/hachoir/metadata/program.py
index 6fce949..f8453ae 100644
--- a/hachoir/metadata/program.py
+++ b/hachoir/metadata/program.py
@@ -73,16 +73,20 @@ class ExeMetadata(RootMetadata):
     def usePE_OptHeader(self, hdr):
         self.comment = "Subsystem: %s" % hdr["subsystem"].display
 
+    @fault_tolerant
+    def readVersionNode(self, node, values):
+        if "value" not in node or "name" not in node:
+            return
+        value = node["value"].value.strip(" \0")
+        if not value:
+            return
+        key = node["name"].value
+        values[key] = value
+
     def readVersionInfo(self, info):
         values = {}
         for node in info.array("node"):
-            if "value" not in node or "name" not in node:
-                continue
-            value = node["value"].value.strip(" \0")
-            if not value:
-                continue
-            key = node["name"].value
-            values[key] = value
+            self.readVersionNode(node, values)
 
         if "ProductName" in values and "FileDescription" in values:
             # Make sure that FileDescription is set before ProductName
-- 
2.43.0

