From e5ef5493f3259833fe3d9bd0d6456add49c09e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 01/36] fix: build pointer words as signed 64-bit values in
 pure-Python mode

new_struct, new_list and new_far returned words >= 2**63 when the topmost
field had its high bit set, which the builder could not write.
---
 capnpy/ptr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/capnpy/ptr.py b/capnpy/ptr.py
index a0d9145..d811895 100644
--- a/capnpy/ptr.py
+++ b/capnpy/ptr.py
@@ -80,7 +80,7 @@ def deref(ptr, ofs):
 
 def new_struct(offset, data_size, ptrs_size):
     p = 0
-    p |= ptrs_size << 48
+    p |= as_signed(ptrs_size, 16) << 48
     p |= (data_size << 32 & 0xffff00000000)
     p |= (offset << 2 & 0xfffffffc)
     p |= STRUCT
@@ -118,7 +118,7 @@ def struct_ptrs_size(ptr):
 
 def new_list(ptr_offset, size_tag, item_count):
     p = 0
-    p |= item_count << 35
+    p |= as_signed(item_count, 29) << 35
     p |= (size_tag << 32 & 0x700000000)
     p |= (ptr_offset << 2 & 0xfffffffc)
     p |= LIST
@@ -154,7 +154,7 @@ def list_item_length(size_tag):
 
 def new_far(landing_pad, offset, target):
     p = 0
-    p |= target << 32
+    p |= as_signed(target, 32) << 32
     p |= (offset << 3 & 0xfffffff8)
     p |= (landing_pad << 2 & 0x4)
     p |= FAR
-- 
2.43.0


From 8a2f7cbbcc1fc670610a935063a6ba4764a9b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 02/36] fix: do not let huge offsets overflow the bounds checks
 of the compiled readers

offset + size wrapped around for offsets close to the maximum, so the check
passed and the read or write went out of the buffer.
---
 capnpy/packing.pyx      | 2 +-
 capnpy/segment/base.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/capnpy/packing.pyx b/capnpy/packing.pyx
index 30ba213..6d4e982 100644
--- a/capnpy/packing.pyx
+++ b/capnpy/packing.pyx
@@ -36,7 +36,7 @@ cdef char* as_cbuf(object buf, Py_ssize_t* length, bint rw=0) except NULL:
             raise TypeError("Expected str or bytearray")
 
 cdef checkbound(int size, Py_ssize_t length, int offset):
-    if offset < 0 or offset + size > length:
+    if offset < 0 or offset > length - size:
         raise IndexError('Offset out of bounds: %d' % offset)
 
 cpdef unpack_primitive(char ifmt, object buf, int offset):
diff --git a/capnpy/segment/base.pyx b/capnpy/segment/base.pyx
index 5e6e531..7078bae 100644
--- a/capnpy/segment/base.pyx
+++ b/capnpy/segment/base.pyx
@@ -14,7 +14,7 @@ cdef extern from "_util.h":
 cpdef uint32_t unpack_uint32(bytes buf, Py_ssize_t offset) except? 0xffffffff:
     cdef const char *cbuf = _PyString_AS_STRING(buf)
     cdef Py_ssize_t buflen = _PyString_GET_SIZE(buf)
-    if offset < 0 or offset + 4 > buflen:
+    if offset < 0 or offset > buflen - 4:
         raise IndexError('Offset out of bounds: %d' % (offset+4))
     return (<uint32_t*>(cbuf+offset))[0]
 
@@ -41,7 +41,7 @@ cdef class BaseSegment(object):
         # consider adding a read_int64_fast or similar method, which does
         # *not* do the check.
         cdef Py_ssize_t buflen = _PyString_GET_SIZE(self.buf)
-        if offset < 0 or offset + size > buflen:
+        if offset < 0 or offset > buflen - size:
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     @cython.final
-- 
2.43.0


From 3425dc4f0798e3b60f575dd7c60d2c44738c961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 03/36] fix: reject negative offsets in the pure-Python
 pack_into

They wrote at the end of the buffer; the compiled version raises IndexError.
---
 capnpy/packing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/packing.py b/capnpy/packing.py
index c15d0fb..c9f1721 100644
--- a/capnpy/packing.py
+++ b/capnpy/packing.py
@@ -47,6 +47,8 @@ def pack_int64(value):
 
 def pack_into(ifmt, buf, offset, value):
     fmt = '<' + mychr(ifmt)
+    if offset < 0:
+        raise IndexError('Offset out of bounds: %d' % offset)
     try:
         struct.pack_into(fmt, buf, offset, value)
     except struct.error as e:
-- 
2.43.0


From db71a019631047852b5984735c5400a774b4b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 04/36] fix: refuse lists, text and data with more than 2**29-1
 items

The count does not fit the pointer and was silently truncated.
---
 capnpy/segment/builder.py  | 2 ++
 capnpy/segment/builder.pyx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 968a0ed..9f73736 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -83,6 +83,8 @@ class SegmentBuilder(object):
         Allocate a new list of the given size, and write the resulting pointer
         at position i. Return the newly allocated position.
         """
+        if item_count > 0x1fffffff:
+            raise ValueError('list too long: %d items' % item_count)
         body_length = ptr.round_up_to_word(body_length)
         result = self.allocate(body_length)
         offet = result - (pos+8)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 9d05030..2d19453 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -148,6 +148,8 @@ cdef class SegmentBuilder(object):
         Allocate a new list of the given size, and write the resulting pointer
         at position i. Return the newly allocated position.
         """
+        if item_count > 0x1fffffff:
+            raise ValueError('list too long: %d items' % item_count)
         body_length = round_to_word(body_length)
         cdef Py_ssize_t result = self.allocate(body_length)
         cdef long offet = result - (pos+8)
-- 
2.43.0


From cdeeba141eb053c7fb9fcd544816e37587e985d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 05/36] fix: reject negative offsets when copying pointers

---
 capnpy/segment/_copy_pointer.h  | 4 +++-
 capnpy/segment/_copy_pointer.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.h b/capnpy/segment/_copy_pointer.h
index 1bc687c..e78258b 100644
--- a/capnpy/segment/_copy_pointer.h
+++ b/capnpy/segment/_copy_pointer.h
@@ -7,7 +7,9 @@ static PyObject* RAISE_OUT_OF_BOUNDS(Py_ssize_t, Py_ssize_t);
     (Py_INCREF(Py_None), Py_None);                                      \
     {                                                                   \
         /* _PyString_GET_SIZE is included from _util.h */               \
-        if ((offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
+        /* offset+size might overflow, so don't compute it here */       \
+        if ((offset) < 0 ||                                             \
+            (offset) > (_PyString_GET_SIZE(src->buf)) - (size)) {       \
             /* raise and return error */                                \
             return RAISE_OUT_OF_BOUNDS(size, offset);                   \
         }                                                               \
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 9739110..38d7c6b 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -38,7 +38,7 @@ if not cython.compiled:
     # it. However, we can trick Cython by calling it _check_bounds and
     # 'rename' it later by modifying globals(). Bah.
     def _check_bounds(src, size, offset):
-        if offset+size > len(src.buf):
+        if offset < 0 or offset > len(src.buf) - size:
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     def _read_int64_fast(src, offset):
-- 
2.43.0


From 90181cb01fd1f2f3eada03617e3131758c0f41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 06/36] fix: check the tag of the composite lists which are
 being copied

---
 capnpy/segment/_copy_pointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 38d7c6b..e8d2290 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -201,6 +201,8 @@ def _copy_list_composite(src, p, src_pos, dst, dst_pos):
     count = ptr.offset(tag)
     data_size = ptr.struct_data_size(tag)
     ptrs_size = ptr.struct_ptrs_size(tag)
+    if count < 0 or count*(data_size+ptrs_size) > total_words:
+        raise ValueError('Invalid tag: the items do not fit in the list')
     #
     # allocate the list and copy the whole body at once
     dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_COMPOSITE, total_words, body_length)
-- 
2.43.0


From 2eaffe7d01a27d4cf40cd3183139513ec563e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 07/36] fix: use wide integers for sizes and offsets in the
 compiled loaders and streams

---
 capnpy/buffered.pxd | 20 ++++++++++----------
 capnpy/filelike.pxd |  4 ++--
 capnpy/message.pxd  | 10 +++++-----
 capnpy/message.py   |  3 ++-
 4 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/capnpy/buffered.pxd b/capnpy/buffered.pxd
index d960142..4d0e4e4 100644
--- a/capnpy/buffered.pxd
+++ b/capnpy/buffered.pxd
@@ -3,16 +3,16 @@ from capnpy.filelike cimport FileLike
 
 cdef class BufferedStream(FileLike):
     cdef readonly bytes buf
-    cdef readonly int i
+    cdef readonly Py_ssize_t i
 
-    cdef _fillbuf(self, int size)
+    cdef _fillbuf(self, Py_ssize_t size)
     cdef bytes _readall(self)
     cpdef bytes _readchunk(self)
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=Py_ssize_t, j=Py_ssize_t)
+    cpdef bytes read(self, Py_ssize_t size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=Py_ssize_t, j=Py_ssize_t)
     cpdef bytes readline(self)
 
 
@@ -25,12 +25,12 @@ cdef class BufferedSocket(BufferedStream):
 
 cdef class StringBuffer(FileLike):
     cdef readonly bytes s
-    cdef readonly int i
+    cdef readonly Py_ssize_t i
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=Py_ssize_t, j=Py_ssize_t)
+    cpdef bytes read(self, Py_ssize_t size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=Py_ssize_t, j=Py_ssize_t)
     cpdef bytes readline(self)
 
-    cpdef int tell(self)
+    cpdef Py_ssize_t tell(self)
diff --git a/capnpy/filelike.pxd b/capnpy/filelike.pxd
index d6598f6..8e4e0ea 100644
--- a/capnpy/filelike.pxd
+++ b/capnpy/filelike.pxd
@@ -1,12 +1,12 @@
 cpdef FileLike as_filelike(object f)
 
 cdef class FileLike:
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, Py_ssize_t size=*)
     cpdef bytes readline(self)
 
 cdef class FileLikeAdapter(FileLike):
     cdef object _read
     cdef object _readline
 
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, Py_ssize_t size=*)
     cpdef bytes readline(self)
diff --git a/capnpy/message.pxd b/capnpy/message.pxd
index 39965af..f309517 100644
--- a/capnpy/message.pxd
+++ b/capnpy/message.pxd
@@ -14,15 +14,15 @@ cpdef loads(bytes buf, object payload_type)
 #cpdef load_all(FileLike f, object payload_type)
 
 
-@cython.locals(buf = bytes, n=int, length=int)
+@cython.locals(buf = bytes, n=long, length=long)
 cpdef Struct _load_message(FileLike f)
 
-@cython.locals(buf=bytes, message_size=int, message_lenght=int)
+@cython.locals(buf=bytes, message_size=long, message_lenght=long)
 cpdef _load_buffer_single_segment(FileLike f)
 
-@cython.locals(fmt=bytes, size=int, buf=bytes, bytes_read=int,
-                padding=int, message_lenght=int, offset=int, size=int)
-cpdef _load_buffer_multiple_segments(FileLike f, int n)
+@cython.locals(fmt=bytes, size=long, buf=bytes, bytes_read=long,
+                padding=long, message_lenght=long, offset=long)
+cpdef _load_buffer_multiple_segments(FileLike f, long n)
 
 @cython.locals(builder=SegmentBuilder, segment_size=long, segment_count=long,
                p=long, start=long, end=long)
diff --git a/capnpy/message.py b/capnpy/message.py
index 84ba1b7..c471707 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -58,7 +58,8 @@ def _load_message(f):
         raise EOFError("No message to load")
     elif length < 4:
         raise ValueError("Malformed header: expected 4 bytes, got %d" % len(buf))
-    n = unpack_uint32(buf, 0) + 1
+    n = unpack_uint32(buf, 0)
+    n += 1 # 'n' is wide enough to not overflow
     if n == 1:
         capnp_buf = _load_buffer_single_segment(f) # fast path
     else:
-- 
2.43.0


From c47c832261c1b1da5a60ea0669a478c9e5af2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 08/36] fix: do not move past the end of the data in buffered
 reads

---
 capnpy/buffered.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capnpy/buffered.py b/capnpy/buffered.py
index b7212cd..18c6f7d 100644
--- a/capnpy/buffered.py
+++ b/capnpy/buffered.py
@@ -45,14 +45,14 @@ class BufferedStream(FileLike):
         if size == -1:
             return self._readall()
         i = self.i
-        j = i + size
-        if len(self.buf) < j:
+        if len(self.buf) - i < size:
             # not enough data in the buffer, let's refill it
             self._fillbuf(size)
-            self.i = size
+            self.i = min(size, len(self.buf))
             return self.buf[:size]
         #
         # data already in the buffer, fast path
+        j = i + size
         self.i = j
         return self.buf[i:j]
 
@@ -140,7 +140,7 @@ class StringBuffer(FileLike):
             self.i = len(self.s)
             return self.s[i:]
         else:
-            j = i + size
+            j = i + min(size, len(self.s) - i)
             self.i = j
             return self.s[i:j]
 
-- 
2.43.0


From 120922c9923ef6a1a45fef05040c5d1347f5658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 09/36] fix: check the bounds of a copied list before
 allocating its space

---
 capnpy/segment/_copy_pointer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index e8d2290..b0948e4 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -163,8 +163,9 @@ def _copy_list_primitive(src, p, src_pos, dst, dst_pos):
     else:
         body_length = count * ptr.list_item_length(size_tag)
     #
-    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
+    # check before allocating: count might be bogus and huge
     check_bounds(src, body_length, src_pos)
+    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     dst.write_slice(dst_pos, src, src_pos, body_length)
 
 
@@ -177,8 +178,9 @@ def _copy_list_ptr(src, p, src_pos, dst, dst_pos):
     src_pos = ptr.deref(p, src_pos)
     count = ptr.list_item_count(p)
     body_length = count*8
-    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
+    # check before allocating: count might be bogus and huge
     check_bounds(src, body_length, src_pos)
+    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     _copy_many_ptrs(count, src, src_pos, dst, dst_pos)
 
 
-- 
2.43.0


From 11b6b5ba5241d672f4580b37d352769b07a7c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 10/36] fix: a composite list which is not filled by its items
 is not compact

---
 capnpy/segment/endof.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 6494cb4..95e044c 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -14,6 +14,8 @@ def endof(seg, p, offset):
       3. its children are compact
 
       4. there are no FAR pointers
+
+      5. the items of composite lists fill exactly the list
     """
     kind = ptr.kind(p)
     offset = ptr.deref(p, offset)
@@ -25,10 +27,13 @@ def endof(seg, p, offset):
         item_size = ptr.list_size_tag(p)
         count = ptr.list_item_count(p)
         if item_size == ptr.LIST_SIZE_COMPOSITE:
+            total_words = count
             tag = seg.read_ptr(offset)
             count = ptr.offset(tag)
             data_size = ptr.struct_data_size(tag)
             ptrs_size = ptr.struct_ptrs_size(tag)
+            if count < 0 or count*(data_size+ptrs_size) != total_words:
+                return -1 # the items do not fill the list exactly
             return _endof_list_composite(seg, p, offset,
                                          count, data_size, ptrs_size)
         elif item_size == ptr.LIST_SIZE_PTR:
-- 
2.43.0


From de66d2e37e41c100644282c405fe027b7ca3e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 11/36] fix: do not dump empty structs as null pointers

---
 capnpy/message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capnpy/message.py b/capnpy/message.py
index c471707..19c74d4 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -158,7 +158,11 @@ def dumps(obj, fastpath=True):
         # do not create a temporary SegmentBuilder. The memcpy vs copy_pointer
         # difference seems negligible, for small objects at least.
         start = obj._data_offset
-        p = ptr.new_struct(0, obj._data_size, obj._ptrs_size)
+        if obj._data_size + obj._ptrs_size == 0:
+            # empty struct: offset==0 would result in a null pointer
+            p = ptr.new_struct(-1, 0, 0)
+        else:
+            p = ptr.new_struct(0, obj._data_size, obj._ptrs_size)
         return obj._seg.dump_message(p, start, end)
     else:
         builder = SegmentBuilder()
-- 
2.43.0


From 71ecc4a6c8681dc6bda9744404a6ac96c4da88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 12/36] fix: pass the number of words to endof() for composite
 lists

---
 capnpy/list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 84c4702..eadcdb2 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -74,7 +74,11 @@ class List(Blob):
         return self._item_type.read_item(self, i)
 
     def _get_end(self):
-        p = ptr.new_list(0, self._size_tag, self._item_count)
+        count = self._item_count
+        if self._size_tag == ptr.LIST_SIZE_COMPOSITE:
+            # for composite lists, the pointer contains the number of words
+            count = count * self._item_length // 8
+        p = ptr.new_list(0, self._size_tag, count)
         return endof(self._seg, p, self._offset-8)
 
     def _get_slice(self):
-- 
2.43.0


From 4ce6d6cc3f04a3da71d232575f747cded9b1f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 13/36] fix: do not let local variables of the generated
 constructors clash with fields

---
 capnpy/compiler/structor.py | 118 +++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 49 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index fc84d4f..3a0a724 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -30,16 +30,33 @@ class Structor(object):
             offset += self.data_size*8
         return offset
 
+    def local_name(self, node):
+        """
+        Name of the variable which contains the value of the given node, inside
+        the ctor. Names of fields cannot start with '_' or contain '__': so, by
+        using these for all the other variables we make sure that they never
+        clash with the arguments.
+        """
+        if node.parent is self.fieldtree:
+            return node.varname # one of the arguments
+        parent = self.local_name(node.parent).lstrip('_')
+        return '_%s__%s' % (parent, self.m.py_field_name(node.f))
+
+    def curtag_name(self, node):
+        if node is self.fieldtree:
+            return '_curtag'
+        return '_curtag__%s' % self.local_name(node).lstrip('_')
+
     def emit(self):
         ## generate a constructor which looks like this
         ## @staticmethod
         ## def __new(x=0, y=0, z=None):
-        ##     builder = _SegmentBuilder()
-        ##     pos = builder.allocate(24)
-        ##     builder.write_int64(pos + 0, x)
-        ##     builder.write_int64(pos + 8, y)
-        ##     builder.alloc_text(pos + 16, z)
-        ##     return builder.as_string()
+        ##     _builder = _SegmentBuilder()
+        ##     _pos = _builder.allocate(24)
+        ##     _builder.write_int64(_pos + 0, x)
+        ##     _builder.write_int64(_pos + 8, y)
+        ##     _builder.alloc_text(_pos + 16, z)
+        ##     return _builder.as_string()
         #
         # the parameters have the same order as fields
         code = self.m.code
@@ -50,28 +67,29 @@ class Structor(object):
         code.w('@staticmethod')
         with code.cdef_('__new', self.params) as ns:
             ns.length = (self.data_size + self.ptrs_size)*8
-            ns.cdef_var('_SegmentBuilder', 'builder')
-            ns.cdef_var('long', 'pos')
-            ns.w('builder = _SegmentBuilder()')
-            ns.w('pos = builder.allocate({length})')
-            for union in self.fieldtree.all_unions():
-                ns.w('{union}__curtag = None', union=union.varname)
+            ns.cdef_var('_SegmentBuilder', '_builder')
+            ns.cdef_var('long', '_pos')
+            ns.w('_builder = _SegmentBuilder()')
+            ns.w('_pos = _builder.allocate({length})')
+            for node in [self.fieldtree] + list(self.fieldtree.allnodes()):
+                if node.union:
+                    ns.w('{curtag} = None', curtag=self.curtag_name(node))
             for node in self.fieldtree.children:
                 self.handle_node(node)
-            ns.w('return builder.as_string()')
+            ns.w('return _builder.as_string()')
 
     def handle_node(self, node):
         if node.f.is_part_of_union():
             ns = self.m.code.new_scope()
-            ns.varname = node.varname
-            ns.union = node.parent.union.varname
+            ns.varname = self.local_name(node)
+            ns.curtag = self.curtag_name(node.parent)
             ns.offset = node.parent.union.offset
             ns.tagval = node.f.discriminantValue
             ns.tagname = self.m.py_field_name(node.f)
             ns.ifmt  = 'ord(%r)' % Types.int16.fmt
             with ns.block('if {varname} is not _undefined:'):
-                ns.w('{union}__curtag = _check_tag({union}__curtag, {tagname!r})')
-                ns.w('builder.write_int16({offset}, {tagval})')
+                ns.w('{curtag} = _check_tag({curtag}, {tagname!r})')
+                ns.w('_builder.write_int16({offset}, {tagval})')
                 self._handle_node(node)
         else:
             self._handle_node(node)
@@ -105,15 +123,15 @@ class Structor(object):
     def handle_group(self, node):
         # def __init__(self, position, ...):
         #     ...
-        #     position_x, position_y = position
-        #     builder.write_...(..., position_x)
-        #     builder.write_...(..., position_y)
+        #     _position__x, _position__y = position
+        #     _builder.write_...(..., _position__x)
+        #     _builder.write_...(..., _position__y)
         #     ...
         #
         # 1. unpack the tuple into various indepented variables
         ns = self.m.code.new_scope()
-        ns.group = node.varname
-        argnames = [child.varname for child in node.children]
+        ns.group = self.local_name(node)
+        argnames = [self.local_name(child) for child in node.children]
         ns.args = self.m.code.args(argnames)
         ns.w('{args}, = {group}')
         #
@@ -125,81 +143,83 @@ class Structor(object):
         # def __init__(self, ..., x, ...):
         #     ...
         #     if x is None:
-        #         x_is_null = 1
-        #         x_value = 0
+        #         _x__is_null = 1
+        #         _x__value = 0
         #     else:
-        #         x_is_null = 0
-        #         x_value = x
+        #         _x__is_null = 0
+        #         _x__value = x
         #
-        value_node = node.children[1]
+        is_null_node, value_node = node.children
         assert value_node.f.name == b'value' # sanity check
         ns = self.m.code.new_scope()
-        ns.fname = node.varname
+        ns.fname = self.local_name(node)
+        ns.is_null = self.local_name(is_null_node)
+        ns.value = self.local_name(value_node)
         ns.value_default = value_node.default
         ns.ww(
         """
             if {fname} is None:
-                {fname}_is_null = 1
-                {fname}_value = {value_default}
+                {is_null} = 1
+                {value} = {value_default}
             else:
-                {fname}_is_null = 0
-                {fname}_value = {fname}
+                {is_null} = 0
+                {value} = {fname}
         """)
         for child in node.children:
             self.handle_node(child)
 
     def handle_text_bytes(self, node):
-        self.m.code.w('builder.alloc_text(pos + {offset}, {arg})',
-                      arg=node.varname, offset=self.slot_offset(node.f))
+        self.m.code.w('_builder.alloc_text(_pos + {offset}, {arg})',
+                      arg=self.local_name(node), offset=self.slot_offset(node.f))
 
     def handle_text_unicode(self, node):
         ns = self.m.code.new_scope()
-        ns.arg = node.varname
+        ns.arg = self.local_name(node)
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.alloc_text(pos + {offset}, _encode_maybe({arg}))')
+        ns.w('_builder.alloc_text(_pos + {offset}, _encode_maybe({arg}))')
 
     def handle_data(self, node):
-        self.m.code.w('builder.alloc_data(pos + {offset}, {arg})',
-                      arg=node.varname, offset=self.slot_offset(node.f))
+        self.m.code.w('_builder.alloc_data(_pos + {offset}, {arg})',
+                      arg=self.local_name(node), offset=self.slot_offset(node.f))
 
     def handle_struct(self, node):
         ## @staticmethod
         ## def __new(x=0, y=<some struct>):
-        ##     builder = _SegmentBuilder()
-        ##     pos = builder.allocate(16)
+        ##     _builder = _SegmentBuilder()
+        ##     _pos = _builder.allocate(16)
         ##     ...
-        ##     builder.copy_from_struct(pos+8, SomeStruct, y)
+        ##     _builder.copy_from_struct(_pos+8, SomeStruct, y)
         ns = self.m.code.new_scope()
-        ns.fname = node.varname
+        ns.fname = self.local_name(node)
         ns.offset = self.slot_offset(node.f)
         ns.structname = node.f.slot.type.runtime_name(self.m)
-        ns.w('builder.copy_from_struct(pos + {offset}, {structname}, {fname})')
+        ns.w('_builder.copy_from_struct(_pos + {offset}, {structname}, {fname})')
 
     def handle_list(self, node):
         options = self.m.options(node.f)
         ns = self.m.code.new_scope()
-        ns.fname = node.varname
+        ns.fname = self.local_name(node)
         ns.offset = self.slot_offset(node.f)
         t = node.f.slot.type.list.elementType
         ns.list_item_type = t.list_item_type(self.m, options)
-        ns.w('builder.copy_from_list(pos + {offset}, {list_item_type}, {fname})')
+        ns.w('_builder.copy_from_list(_pos + {offset}, {list_item_type}, {fname})')
 
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
-        ns.arg = node.varname
+        ns.arg = self.local_name(node)
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
         #
         ns.type = node.f.slot.get_typename()
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.write_{type}(pos + {offset}, {arg})')
+        ns.w('_builder.write_{type}(_pos + {offset}, {arg})')
 
     def handle_bool(self, node):
         ns = self.m.code.new_scope()
-        ns.arg = node.varname
+        ns.arg = self.local_name(node)
         ns.byteoffset, ns.bitoffset = divmod(node.f.slot.offset, 8)
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
-        ns.w('builder.write_bool({byteoffset}, {bitoffset}, {arg})')
+        ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
-- 
2.43.0


From 4b2e96c040158b97d6a0c971a240cfcf0ded2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 14/36] fix: clip the size in strhash() when the range goes
 past the end

---
 capnpy/_hash.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/_hash.pyx b/capnpy/_hash.pyx
index 0ba3521..7b3e2bb 100644
--- a/capnpy/_hash.pyx
+++ b/capnpy/_hash.pyx
@@ -23,9 +23,9 @@ cdef int PY3 = PY_MAJOR_VERSION == 3
 
 cpdef long strhash(bytes a, long start, long size):
     cdef long maxlen = len(a)
-    if start >= maxlen or size == 0:
+    if start < 0 or start >= maxlen or size <= 0:
         return 0
-    if size > maxlen:
+    if size > maxlen-start:
         size = maxlen-start
 
     cdef const unsigned char* p = a
-- 
2.43.0


From e00b0ef1ea9c7d067e8ced0ddc45ccd080e51c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 15/36] fix: do not name negative values of an enum after its
 last members

---
 capnpy/enum.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/capnpy/enum.py b/capnpy/enum.py
index 894ceb0..819c9fb 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -6,10 +6,9 @@ class BaseEnum(int):
 
     @property
     def name(self):
-        try:
+        if 0 <= self < len(self.__members__):
             return self.__members__[self]
-        except IndexError:
-            return 'unknown<%d>' % self
+        return 'unknown<%d>' % self
 
     def __repr__(self):
         return '<%s.%s: %d>' % (self.__class__.__name__, self.name, self)
-- 
2.43.0


From 56e26439d297a583ee0b139e979ed7e1a9a8167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 16/36] fix: resolve far pointers in AnyPointer.is_*

---
 capnpy/anypointer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/capnpy/anypointer.py b/capnpy/anypointer.py
index e701396..9972b8f 100644
--- a/capnpy/anypointer.py
+++ b/capnpy/anypointer.py
@@ -9,16 +9,22 @@ class AnyPointer(object):
         self.struct_ = struct_
         self.offset = offset
 
-    def is_struct(self):
+    def _read_ptr(self):
         p = self.struct_._read_fast_ptr(self.offset)
+        if ptr.kind(p) == ptr.FAR:
+            _, p = self.struct_._read_far_ptr(self.offset)
+        return p
+
+    def is_struct(self):
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.STRUCT
 
     def is_list(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.LIST
 
     def is_text(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return (ptr.kind(p) == ptr.LIST and
                 ptr.list_size_tag(p) == ptr.LIST_SIZE_8)
 
-- 
2.43.0


From 36486c102d506cd1887706d8dd0c61dbbe05d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 17/36] fix: nullable groups with convert_case=False

---
 capnpy/annotate_extended.py | 2 +-
 capnpy/compiler/field.py    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/capnpy/annotate_extended.py b/capnpy/annotate_extended.py
index 20a145f..af98eec 100644
--- a/capnpy/annotate_extended.py
+++ b/capnpy/annotate_extended.py
@@ -14,7 +14,7 @@ class nullable:
         group = field.group.get_node(m)
         if len(group.struct.fields) != 2:
             error()
-        f_is_null, f_value = group.struct.fields
+        f_is_null, f_value = group.get_struct_fields()
         if (f_is_null.name != b'isNull' or
             f_value.name != b'value'):
             error('nullable groups must have exactly two fields: '
diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index e561511..ec6853b 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -227,13 +227,15 @@ class Field__Group:
         ns.name = name
         nullable = self.is_nullable(m)
         if nullable:
-            nullable.check(m)
+            _, f_is_null, f_value = nullable.check(m)
             ns.privname = '_' + name
+            ns.is_null = m.py_field_name(f_is_null)
+            ns.value = m.py_field_name(f_value)
             m.def_property(ns, name, """
                 g = self.{privname}
-                if g.is_null:
+                if g.{is_null}:
                     return None
-                return g.value
+                return g.{value}
             """)
             name = ns.privname
         #
-- 
2.43.0


From e2af694dbd9ce89c8f7b780ef719d0cb7676a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 18/36] fix: write_bool must change only one bit

---
 capnpy/compiler/structor.py | 2 +-
 capnpy/segment/builder.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 3a0a724..9fa26b4 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -221,5 +221,5 @@ class Structor(object):
         ns.byteoffset, ns.bitoffset = divmod(node.f.slot.offset, 8)
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
-            ns.w('{arg} ^= {default_}')
+            ns.w('{arg} = bool({arg}) ^ {default_}')
         ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 9f73736..2030e92 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -54,7 +54,7 @@ class SegmentBuilder(object):
 
     def write_bool(self, byteoffset, bitoffset, value):
         current = struct.unpack_from('B', self.buf, byteoffset)[0]
-        current |= (value << bitoffset)
+        current |= (bool(value) << bitoffset)
         struct.pack_into('B', self.buf, byteoffset, current)
 
     def write_slice(self, i, src, start, n):
-- 
2.43.0


From 39f290e94a17307cafac3fb65b9a6f834ac2f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 19/36] fix: explicit defaults of float fields

---
 capnpy/compiler/field.py     | 16 ++++++++++++++++
 capnpy/compiler/fieldtree.py |  4 ++++
 capnpy/compiler/request.py   |  3 +++
 capnpy/compiler/structor.py  | 14 +++++++++++---
 capnpy/schema_extended.py    |  9 +++++++++
 capnpy/util.py               | 14 ++++++++++++++
 6 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index ec6853b..e4631aa 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -67,6 +67,10 @@ class Field__Slot:
             """)
 
     def _emit_primitive(self, m, ns, name):
+        if self.is_float32() or self.is_float64():
+            bits = self.slot.get_default_bits()
+            if bits != 0:
+                return self._emit_float_with_default(m, ns, name, bits)
         ns.typename = '_Types.%s' % self.slot.type.which()
         ns.default_ = self.slot.defaultValue.as_pyobj()
         ns.ifmt = "ord(%r)" % self.slot.get_fmt()
@@ -78,6 +82,18 @@ class Field__Slot:
             return value
         """)
 
+    def _emit_float_with_default(self, m, ns, name, bits):
+        # the XOR with the default value is done on the raw bits
+        ns.default_bits = bits
+        ns.typename = self.slot.get_typename()
+        ns.ifmt = "ord(%r)" % (self.is_float32() and Types.uint32.fmt or
+                               Types.uint64.fmt)
+        m.def_property(ns, name, """
+            {ensure_union}
+            value = self._read_primitive({offset}, {ifmt})
+            return _{typename}_from_bits(value ^ {default_bits})
+        """)
+
     def _emit_bool(self, m, ns, name):
         byteoffset, bitoffset = divmod(self.slot.offset, 8)
         ns.offset = byteoffset
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index ff4c3b9..70a37d8 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -116,6 +116,10 @@ class Node(AbstractNode):
             return '_undefined'
         elif f.is_slot():
             default_val = f.slot.defaultValue.as_pyobj()
+            if isinstance(default_val, float):
+                if default_val - default_val != 0: # inf or nan
+                    return 'float(%r)' % repr(default_val)
+                return repr(default_val)
             return str(default_val)
         elif f.is_nullable(m):
             ann = f.is_nullable(m)
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 2167290..1f045a1 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -71,6 +71,9 @@ class RequestedFile:
         m.w("from capnpy.util import data_repr as _data_repr")
         m.w("from capnpy.util import float32_repr as _float32_repr")
         m.w("from capnpy.util import float64_repr as _float64_repr")
+        for name in ('float32_to_bits', 'float32_from_bits',
+                     'float64_to_bits', 'float64_from_bits'):
+            m.w("from capnpy.util import {name} as _{name}", name=name)
         m.w("from capnpy.util import extend_module_maybe as _extend_module_maybe")
         m.w("from capnpy.util import check_version as _check_version")
         m.w("from capnpy.util import encode_maybe as _encode_maybe")
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 9fa26b4..2eb70e3 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -207,12 +207,20 @@ class Structor(object):
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
         ns.arg = self.local_name(node)
-        if node.f.slot.hadExplicitDefault:
+        ns.type = node.f.slot.get_typename()
+        ns.offset = self.slot_offset(node.f)
+        if node.f.is_float32() or node.f.is_float64():
+            ns.default_bits = node.f.slot.get_default_bits()
+            if ns.default_bits != 0:
+                # the XOR with the default value is done on the raw bits
+                ns.uint = node.f.is_float32() and 'uint32' or 'uint64'
+                ns.w('{arg} = _{type}_to_bits({arg}) ^ {default_bits}')
+                ns.w('_builder.write_{uint}(_pos + {offset}, {arg})')
+                return
+        elif node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
         #
-        ns.type = node.f.slot.get_typename()
-        ns.offset = self.slot_offset(node.f)
         ns.w('_builder.write_{type}(_pos + {offset}, {arg})')
 
     def handle_bool(self, node):
diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index f553541..664289d 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -150,6 +150,15 @@ class Field_slot:
         elif self.type.is_enum():
             return 'int16'
 
+    def get_default_bits(self):
+        """
+        Return the raw bits of the default value of a float32/float64 field
+        """
+        from capnpy.util import float32_to_bits, float64_to_bits
+        if self.type.is_float32():
+            return float32_to_bits(self.defaultValue.float32)
+        return float64_to_bits(self.defaultValue.float64)
+
     def get_size(self):
         # XXX: even more hackish, we need a better way
         if self.type.is_void():
diff --git a/capnpy/util.py b/capnpy/util.py
index 9969389..005e90a 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -1,4 +1,5 @@
 import sys
+import struct
 import py
 import six
 
@@ -106,6 +107,19 @@ def data_repr(s):
     return u'"%s"' % s[1:-1]
 
 
+def float32_to_bits(x):
+    return struct.unpack('<I', struct.pack('<f', x))[0]
+
+def float32_from_bits(x):
+    return struct.unpack('<f', struct.pack('<I', x))[0]
+
+def float64_to_bits(x):
+    return struct.unpack('<Q', struct.pack('<d', x))[0]
+
+def float64_from_bits(x):
+    return struct.unpack('<d', struct.pack('<Q', x))[0]
+
+
 try:
     from capnpy.floatrepr import float32_repr, float64_repr
 except ImportError:
-- 
2.43.0


From 439b6f10704f783fa1eaab3dacc94ec55f79321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 20/36] fix: escape backslashes and newlines in the repr of
 text

---
 capnpy/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/util.py b/capnpy/util.py
index 005e90a..ab1cd5c 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -90,6 +90,8 @@ def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
 def text_unicode_repr(s):
+    s = s.replace('\\', r'\\')
+    s = s.replace('\n', r'\n')
     s = s.replace('"', r'\"')
     s = s.replace("'", r"\'")
     return u'"%s"' % s
-- 
2.43.0


From e24ea0afbd9bc711e6cb9b783952303086f214d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 21/36] fix: compare lists item by item

---
 capnpy/list.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index eadcdb2..3d993a2 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -95,9 +95,15 @@ class List(Blob):
             return list(self) == other
         if self.__class__ is not other.__class__:
             return False
-        return (self._item_count == other._item_count and
-                self._item_type.get_type() == other._item_type.get_type() and
-                self._get_slice() == other._get_slice())
+        if (self._item_count != other._item_count or
+            self._item_type.get_type() != other._item_type.get_type()):
+            return False
+        # compare the items and not the raw memory: the latter might contain
+        # pointers and padding, so equal lists might be laid out differently
+        for i in range(self._item_count):
+            if self._getitem_fast(i) != other._getitem_fast(i):
+                return False
+        return True
 
     def shortrepr(self):
         parts = [self._item_type.item_repr(item) for item in self]
@@ -369,7 +375,10 @@ class ListItemType(ItemType):
         self.size_tag = ptr.LIST_SIZE_PTR
 
     def get_type(self):
-        return ('list', self.inner_item_type)
+        return ('list', self.inner_item_type.get_type())
+
+    def can_compare(self):
+        return self.inner_item_type.can_compare()
 
     def read_item(self, lst, i):
         offset = lst._offset + (i*8)
-- 
2.43.0


From a9e217efab002b626a777da43019f3595d580536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 22/36] fix: write lists of structs whose items have a
 different size

---
 capnpy/list.pxd                 |  4 ++++
 capnpy/list.py                  |  7 +++++--
 capnpy/segment/_copy_list.py    | 15 ++++++++++++++-
 capnpy/segment/_copy_pointer.py |  6 +++---
 capnpy/segment/builder.pxd      |  4 ++--
 capnpy/segment/builder.py       |  7 ++++---
 capnpy/segment/builder.pyx      |  9 +++++----
 7 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/capnpy/list.pxd b/capnpy/list.pxd
index 6e46b07..b97ae08 100644
--- a/capnpy/list.pxd
+++ b/capnpy/list.pxd
@@ -51,6 +51,10 @@ cdef class StructItemType(ItemType):
     cdef readonly long static_data_size
     cdef readonly long static_ptrs_size
 
+    cpdef check_item(self, object item)
+    cpdef write_struct(self, SegmentBuilder builder, long pos, long ptrs_pos,
+                       object item)
+
 cdef class TextItemType(ItemType):
     cdef readonly int additional_size
 
diff --git a/capnpy/list.py b/capnpy/list.py
index 3d993a2..0e71a1b 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -307,13 +307,16 @@ class StructItemType(ItemType):
     def item_repr(self, item):
         return item.shortrepr()
 
-    def write_item(self, builder, pos, item):
+    def check_item(self, item):
         structcls = self.structcls
         if not isinstance(item, structcls):
             raise TypeError("Expected an object of type %s, got %s instead" %
                             (self.structcls.__name__, item.__class__.__name__))
+
+    def write_struct(self, builder, pos, ptrs_pos, item):
+        self.check_item(item)
         p = item._as_pointer(0)
-        builder.copy_inline_struct(pos, item._seg, p, 0)
+        builder.copy_inline_struct(pos, ptrs_pos, item._seg, p, 0)
 
 
 class TextItemType(ItemType):
diff --git a/capnpy/segment/_copy_list.py b/capnpy/segment/_copy_list.py
index 3e671e2..aca3ee4 100644
--- a/capnpy/segment/_copy_list.py
+++ b/capnpy/segment/_copy_list.py
@@ -29,16 +29,29 @@ def copy_from_list(builder, pos, item_type, lst):
     item_count = len(lst)
     body_length = item_length * item_count
     if size_tag == ptr.LIST_SIZE_COMPOSITE:
-        # alloc the list and write the tag
         struct_item_type = item_type
         data_size = struct_item_type.static_data_size
         ptrs_size = struct_item_type.static_ptrs_size
+        # the items might be bigger than expected, e.g. if they were created by
+        # using a newer version of the schema
+        for item in lst:
+            struct_item_type.check_item(item)
+            data_size = max(data_size, item._data_size)
+            ptrs_size = max(ptrs_size, item._ptrs_size)
+        item_length = (data_size+ptrs_size)*8
+        body_length = item_length * item_count
+        #
+        # alloc the list and write the tag
         total_words = (data_size+ptrs_size) * item_count
         pos = builder.alloc_list(pos, size_tag, total_words,
                                  body_length + 8) # +8 is for the tag
         tag = ptr.new_struct(item_count, data_size, ptrs_size)
         builder.write_int64(pos, tag)
         pos += 8
+        for item in lst:
+            struct_item_type.write_struct(builder, pos, pos + data_size*8, item)
+            pos += item_length
+        return
     else:
         # alloc the list, no tag
         pos = builder.alloc_list(pos, size_tag, item_count, body_length)
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index b0948e4..4b064ce 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -124,8 +124,8 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
 ##@cython.returns(long)
 ##@cython.except_(-1)
 @cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
-               data_size=long, ptrs_size=long, ds=long)
-def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
+               dst_ptrs_pos=long, data_size=long, ptrs_size=long, ds=long)
+def _copy_struct_inline(src, p, src_pos, dst, dst_pos, dst_ptrs_pos):
     # this does the same as _copy_struct, but instead of allocating space for
     # it, it fills an already-allocated space (useful e.g. for writing structs
     # into lists).
@@ -145,7 +145,7 @@ def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
     ds = data_size*8
     check_bounds(src, ds, src_pos)
     dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
-    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
+    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_ptrs_pos)
 
 
 @cython.cfunc
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index aeb48bd..7fca28b 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -41,6 +41,6 @@ cdef class SegmentBuilder(object):
     cpdef copy_from_pointer(self, Py_ssize_t dst_pos, BaseSegment src, long p,
                             Py_ssize_t src_pos)
     cpdef copy_from_struct(self, Py_ssize_t dst_pos, type structcls, Struct value)
-    cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos)
+    cpdef copy_inline_struct(self, Py_ssize_t dst_pos, Py_ssize_t dst_ptrs_pos,
+                             BaseSegment src, long p, Py_ssize_t src_pos)
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst)
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 2030e92..b325323 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -119,15 +119,16 @@ class SegmentBuilder(object):
     def copy_from_pointer(self, dst_pos, src, p, src_pos):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
-    def copy_inline_struct(self, dst_pos, src, p, src_pos):
+    def copy_inline_struct(self, dst_pos, dst_ptrs_pos, src, p, src_pos):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos, and its pointers into
+             dst_ptrs_pos
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, dst_ptrs_pos)
 
     def copy_from_list(self, pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 2d19453..4514c04 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -186,16 +186,17 @@ cdef class SegmentBuilder(object):
                             Py_ssize_t src_pos):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
-    cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos):
+    cpdef copy_inline_struct(self, Py_ssize_t dst_pos, Py_ssize_t dst_ptrs_pos,
+                             BaseSegment src, long p, Py_ssize_t src_pos):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos, and its pointers into
+             dst_ptrs_pos
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, dst_ptrs_pos)
 
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
-- 
2.43.0


From ef03e7a718d885f99cd345c0e89e020720667064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 23/36] fix: do not crash on unions whose tag is 65535 in pyx
 mode

---
 capnpy/compiler/struct_.py | 2 +-
 capnpy/struct_.pxd         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 432003c..cd87e4f 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -132,7 +132,7 @@ class Node__Struct:
             # PyPy because the default implementations defined in struct_.py
             # are already fast
             ns.ww("""
-                cpdef long __which__(self) except -1:
+                cpdef long __which__(self) except? -1:
                     return self._read_int16({tag_offset})
                 cpdef which(self):
                     return {compile_name}._new(self.__which__())
diff --git a/capnpy/struct_.pxd b/capnpy/struct_.pxd
index d3d7d21..4c9bd97 100644
--- a/capnpy/struct_.pxd
+++ b/capnpy/struct_.pxd
@@ -54,7 +54,7 @@ cdef class Struct(Blob):
     cpdef long _hash_data(self, long offset, long default_=*, int additional_size=*)
 
     cpdef object _ensure_union(self, long expected_tag)
-    cpdef long __which__(self) except -1
+    cpdef long __which__(self) except? -1
 
     cpdef long _get_end(self)
     cpdef long _is_compact(self)
-- 
2.43.0


From 5750f075d2f5519da739d0191fabf20ebe639aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 24/36] fix: repr of null texts and of data inside lists

---
 capnpy/list.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 0e71a1b..10c9cf5 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -7,7 +7,8 @@ from capnpy.type import Types, BuiltinType
 from capnpy.blob import Blob, PYX
 from capnpy import ptr
 from capnpy.util import (float32_repr, float64_repr, decode_maybe,
-                         encode_maybe, text_bytes_repr, text_unicode_repr)
+                         encode_maybe, text_bytes_repr, text_unicode_repr,
+                         data_repr)
 from capnpy.segment.endof import endof
 
 class List(Blob):
@@ -342,6 +343,10 @@ class TextItemType(ItemType):
         return lst._seg.read_str(p, offset, None, self.additional_size)
 
     def item_repr(self, item):
+        if item is None:
+            return u'""'
+        if self.additional_size == 0:
+            return data_repr(item)
         return text_bytes_repr(item)
 
     def write_item(self, builder, pos, item):
@@ -364,6 +369,8 @@ class TextUnicodeItemType(TextItemType):
         return decode_maybe(res)
 
     def item_repr(self, item):
+        if item is None:
+            return u'""'
         return text_unicode_repr(item)
 
     def write_item(self, builder, pos, item):
-- 
2.43.0


From 45a4f1e32ec986e706e464586c98d9de3973bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 25/36] fix: hash of null unicode text fields

---
 capnpy/struct_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 82c2d27..a43e576 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -255,7 +255,9 @@ class Struct(Blob):
     def _hash_text_unicode(self, offset, default_=hash(None)):
         # XXX: this is not a "fast hash" at all, it creates an unicode and the
         # computes the hash on it
-        u = self._read_text_unicode(offset, default_=b'')
+        u = self._read_text_unicode(offset)
+        if u is None:
+            return default_
         return hash(u)
 
     def _read_data(self, offset, default_=None, additional_size=0):
-- 
2.43.0


From 39c4f6dfc108a1781b8208079452b602463dbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 26/36] fix: honour versionCheck in the options annotation of
 the file

---
 capnpy/compiler/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 1f045a1..dd5f60a 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -93,7 +93,7 @@ class RequestedFile:
         m.w('__capnpy_id__ = {id:#x}', id=self.id)
         m.w('__capnpy_version__ = {version!r}', version=capnpy.__version__)
         m.w('__capnproto_version__ = {version!r}', version=m.capnproto_version)
-        if m.version_check:
+        if m.options(filenode).version_check:
             m.w('_check_version(__name__, __capnpy_version__)')
         else:
             m.w('# schema compiled with --no-version-check, skipping the call to _check_version')
-- 
2.43.0


From 95cd42dc4b3103708cdc843dde4228f6bf90ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 27/36] fix: repr of lists of enums

---
 capnpy/list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/list.py b/capnpy/list.py
index 10c9cf5..6b878b2 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -282,6 +282,9 @@ class EnumItemType(PrimitiveItemType):
         value = PrimitiveItemType.read_item(self, lst, i)
         return self.enumcls(value)
 
+    def item_repr(self, item):
+        return str(item)
+
 
 class StructItemType(ItemType):
 
-- 
2.43.0


From 6c8f00bf61c04d6e44180e52f4b9711e1a915638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 28/36] fix: escape NUL characters in the repr of text

---
 capnpy/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/capnpy/util.py b/capnpy/util.py
index ab1cd5c..8aaa63e 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -92,6 +92,7 @@ def text_bytes_repr(s):
 def text_unicode_repr(s):
     s = s.replace('\\', r'\\')
     s = s.replace('\n', r'\n')
+    s = s.replace('\0', r'\x00')
     s = s.replace('"', r'\"')
     s = s.replace("'", r"\'")
     return u'"%s"' % s
-- 
2.43.0


From 94222bfc742dd175bf8ed79c52bfc2919f432854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 29/36] fix: get_ accessors of text and data union members
 check the union tag

---
 capnpy/compiler/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index e4631aa..543e2cb 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -127,6 +127,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_bytes({offset}, default_=b"")
         """)
         ns.w()
@@ -140,6 +141,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_unicode({offset}, default_=b"")
         """)
         ns.w()
@@ -153,6 +155,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_data({offset}, default_=b"")
         """)
         ns.w()
-- 
2.43.0


From ea194ebbbf0b05dd2411902011a5fa2e3f5fcbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 30/36] fix: text form of enumerants whose Python name differs
 from the schema's

---
 capnpy/compiler/enum.py    | 6 ++++--
 capnpy/compiler/module.py  | 8 +++++++-
 capnpy/compiler/struct_.py | 4 +++-
 capnpy/enum.py             | 9 +++++++++
 capnpy/list.py             | 2 +-
 5 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/capnpy/compiler/enum.py b/capnpy/compiler/enum.py
index d070d64..600eeaf 100644
--- a/capnpy/compiler/enum.py
+++ b/capnpy/compiler/enum.py
@@ -13,8 +13,10 @@ class Node__Enum:
 
     def emit_declaration(self, m):
         name =  self.compile_name(m)
-        items = [m.py_field_name(item) for item in self.get_enum_enumerants()]
-        m.declare_enum(name, self.shortname(m), self.id, items)
+        enumerants = self.get_enum_enumerants()
+        items = [m.py_field_name(item) for item in enumerants]
+        capnp_items = [m.capnp_field_name(item) for item in enumerants]
+        m.declare_enum(name, self.shortname(m), self.id, items, capnp_items)
         m.w('_{name}_list_item_type = _EnumItemType({name})', name=name)
         m.w()
 
diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 60bf342..68c8b4c 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -169,7 +169,8 @@ class ModuleGenerator(object):
             return name + '_'
         return name
 
-    def declare_enum(self, compile_name, name, capnpy_id, items):
+    def declare_enum(self, compile_name, name, capnpy_id, items,
+                     capnp_items=None):
         # this method cannot go on Node__Enum because it's also called by
         # Node__Struct (for __tag__)
         items = list(map(repr, items))
@@ -177,6 +178,9 @@ class ModuleGenerator(object):
         ns.name = compile_name
         ns.capnpy_id = capnpy_id
         ns.members = "(%s,)" % (', '.join(items))
+        if capnp_items is not None:
+            capnp_items = list(map(repr, capnp_items))
+            ns.capnp_members = "(%s,)" % (', '.join(capnp_items))
         ns.prebuilt = [ns.format('{name}({i})', i=i)
                        for i in range(len(items))]
         ns.prebuilt = ', '.join(ns.prebuilt)
@@ -184,6 +188,8 @@ class ModuleGenerator(object):
         with ns.block("class {name}(_BaseEnum):"):
             ns.w("__capnpy_id__ = {capnpy_id}")
             ns.w("__members__ = {members}")
+            if capnp_items is not None and capnp_items != items:
+                ns.w("__capnp_members__ = {capnp_members}")
             ns.w("@staticmethod")
             with ns.block('def _new(x):') as ns:
                 ns.w('return {name}(x)')
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index cd87e4f..4618d93 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -252,8 +252,10 @@ class Node__Struct:
             return ns.format('_float32_repr(self.{pyname})')
         elif f.is_float64():
             return ns.format('_float64_repr(self.{pyname})')
-        if f.is_primitive() or f.is_enum():
+        if f.is_primitive():
             return ns.format('self.{pyname}')
+        elif f.is_enum():
+            return ns.format('self.{pyname}._capnp_name()')
         elif f.is_bool():
             return ns.format('str(self.{pyname}).lower()')
         elif f.is_void():
diff --git a/capnpy/enum.py b/capnpy/enum.py
index 819c9fb..f3f9d04 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -3,6 +3,8 @@ from capnpy.util import magic_setattr
 class BaseEnum(int):
     __slots__ = ()
     __members__ = ()
+    # the names used in the schema, if they differ from __members__
+    __capnp_members__ = None
 
     @property
     def name(self):
@@ -10,6 +12,13 @@ class BaseEnum(int):
             return self.__members__[self]
         return 'unknown<%d>' % self
 
+    def _capnp_name(self):
+        # same as name, but spelled as in the schema
+        members = self.__capnp_members__ or self.__members__
+        if 0 <= self < len(members):
+            return members[self]
+        return 'unknown<%d>' % self
+
     def __repr__(self):
         return '<%s.%s: %d>' % (self.__class__.__name__, self.name, self)
 
diff --git a/capnpy/list.py b/capnpy/list.py
index 6b878b2..be106f9 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -283,7 +283,7 @@ class EnumItemType(PrimitiveItemType):
         return self.enumcls(value)
 
     def item_repr(self, item):
-        return str(item)
+        return item._capnp_name()
 
 
 class StructItemType(ItemType):
-- 
2.43.0


From 828d52d666cb5decc31d51b711a340ade9ed31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:21 +0000
Subject: [PATCH 31/36] fix: importing two schemas with the same base name
 failed with AttributeError

---
 capnpy/compiler/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 68c8b4c..f9ffa29 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -130,7 +130,7 @@ class ModuleGenerator(object):
         name = '_%s_capnp' % name
         if name in self.importnames.values():
             # avoid name clashes
-            name = '%s_%s' % (name, len(self.filenames))
+            name = '%s_%s' % (name, len(self.importnames))
         self.importnames[fname] = name
         return name
 
-- 
2.43.0


From ecf43d35fd4890d7b8a285cec7e87e35e4cacccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:21 +0000
Subject: [PATCH 32/36] fix: constants which are infinite or not a number broke
 the generated module

---
 capnpy/compiler/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 65e3638..a01083a 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -175,6 +175,8 @@ class Node__Const:
             # for primitive types
             val = self.const.value.as_pyobj()
             ns.constdecl = repr(val)
+            if isinstance(val, float) and val - val != 0: # inf or nan
+                ns.constdecl = 'float(%r)' % ns.constdecl
         #
         ns.w('{varname} = {constdecl}')
 
-- 
2.43.0


From ebabab1a9fb4ff55c9f2c05157570abc8d21a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:07 +0000
Subject: [PATCH 33/36] fix: in compiled mode two schemas with the same base
 name were loaded as one module

---
 capnpy/compiler/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index b99615d..7cb10c0 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -87,8 +87,10 @@ class BaseCompiler(object):
         if self.annotate:
             import Cython.Compiler.Options
             Cython.Compiler.Options.annotate = True
+        # files which have the same name but are in different directories must
+        # not share the build directory, else they end up in the same dll
         dll = pyx_to_dll(str(pyxfile),
-                         pyxbuild_dir=str(self.tmpdir),
+                         pyxbuild_dir=str(pyxfile.dirpath()),
                          setup_args=dict(
                              include_dirs=self.include_dirs,
                          ))
-- 
2.43.0


From d46b9a8649284dc1978f6a9c49f66310f5a062f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:09 +0000
Subject: [PATCH 34/36] fix: in pure Python mode lists of imported nested types
 could not be used

---
 capnpy/compiler/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/misc.py b/capnpy/compiler/misc.py
index 60ba886..2a432ea 100644
--- a/capnpy/compiler/misc.py
+++ b/capnpy/compiler/misc.py
@@ -47,8 +47,9 @@ class Type:
                 use_prebuilt_item_type = False
         else:
             if self.is_struct() or self.is_enum():
-                use_prebuilt_item_type = True
+                node = self.get_node(m)
                 prebuilt_compile_name = self.compile_name(m, prefix='_')
+                use_prebuilt_item_type = not node.is_imported(m)
             else:
                 use_prebuilt_item_type = False
 
-- 
2.43.0


From c3c18d362146e0a6ab75fc04ebc0ff6f693c5af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 35/36] fix: list constants inside a struct broke the generated
 module

---
 capnpy/compiler/module.py  |  1 +
 capnpy/compiler/node.py    | 13 +++++++++++--
 capnpy/compiler/request.py |  5 +++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index f9ffa29..769f7f7 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -38,6 +38,7 @@ class ModuleGenerator(object):
         self.extra_annotations = defaultdict(list) # obj -> [ann]
         self.field_override = {} # obj -> obj
         self.current_scope = None
+        self.delayed_consts = [] # consts to emit after all the definitions
         self.collect_nodes()
         self.compute_all_options()
 
diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index a01083a..a74c8ec 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -144,7 +144,12 @@ class Node__Const:
     def emit_declaration(self, m):
         pass
 
-    def emit_reference_as_child(self, m):
+    def emit_reference_as_child(self, m, delayed=False):
+        if not delayed and self.const.type.is_list() and self.is_nested(m):
+            # the item type might not be defined yet at this point of the body
+            # of the class: see RequestedFile.emit
+            m.delayed_consts.append(self)
+            return
         options = m.options(self)
         ns = m.code.new_scope()
         ns.varname = self.shortname(m)
@@ -178,7 +183,11 @@ class Node__Const:
             if isinstance(val, float) and val - val != 0: # inf or nan
                 ns.constdecl = 'float(%r)' % ns.constdecl
         #
-        ns.w('{varname} = {constdecl}')
+        if delayed:
+            ns.parent = self.get_parent(m).compile_name(m)
+            ns.w('_magic_setattr({parent}, {varname!r}, {constdecl})')
+        else:
+            ns.w('{varname} = {constdecl}')
 
     def _declare_list_const(self, val, item_type):
         segment = '_reflection_data.request._seg'
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index dd5f60a..ecb84ca 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -118,6 +118,11 @@ class RequestedFile:
         for child in children:
             child.emit_definition(m)
         #
+        if m.delayed_consts:
+            m.w('from capnpy.util import magic_setattr as _magic_setattr')
+            for const in m.delayed_consts:
+                const.emit_reference_as_child(m, delayed=True)
+        #
         for child in children:
             child.emit_reference_as_child(m)
         #
-- 
2.43.0


From 88a9e1e9ab52e0492faa2b375e11d6e5901c94d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:14 +0000
Subject: [PATCH 36/36] fix: constants named like a Python keyword broke the
 generated module

---
 capnpy/compiler/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index a74c8ec..9eab49f 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -152,7 +152,8 @@ class Node__Const:
             return
         options = m.options(self)
         ns = m.code.new_scope()
-        ns.varname = self.shortname(m)
+        # the name might be a python keyword
+        ns.varname = m._mangle_name(self.shortname(m))
         if self.const.type.is_struct():
             struct_type = m.allnodes[self.const.type.struct.typeId]
             clsname = struct_type.compile_name(m)
-- 
2.43.0

