From 22639374fae34f82708cae01a49da291f9f827d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 001/114] fix: do not take an AMF0 reference slot for objects
 sent as AMF3

---
 pyamf/amf0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index d1019b9..b2249bd 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -595,16 +595,18 @@ class Encoder(codec.Encoder):
         if self.writeReference(o) != -1:
             return
 
-        self.context.addObject(o)
         alias = self.context.getClassAlias(o.__class__)
 
         alias.compile()
 
         if alias.amf3:
+            # the object belongs to the reference table of the AMF3 context
             self.writeAMF3(o)
 
             return
 
+        self.context.addObject(o)
+
         if alias.anonymous:
             self.writeType(TYPE_OBJECT)
         else:
-- 
2.43.0


From 9c5703bc3b8eb59644dfcf06e66e53798989b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 002/114] fix: count dates and XML in the AMF0 reference table
 when encoding, as the decoder does

---
 pyamf/amf0.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index b2249bd..0d18836 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -643,6 +643,8 @@ class Encoder(codec.Encoder):
 
         # According to the Red5 implementation of AMF0, dates references are
         # created, but not used.
+        self.context.addObject(d)
+
         if self.timezone_offset is not None:
             d -= self.timezone_offset
 
@@ -657,6 +659,9 @@ class Encoder(codec.Encoder):
         """
         Writes an XML instance.
         """
+        # like dates, a reference is created but not used.
+        self.context.addObject(e)
+
         self.writeType(TYPE_XML)
 
         data = xml.tostring(e)
-- 
2.43.0


From e343dc6d5a420339c8c310ede674c162749acaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 003/114] fix: timestamps before 1970 with microseconds are off
 by up to two seconds

---
 pyamf/util/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 035e4aa..0d51da0 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -51,9 +51,14 @@ def get_timestamp(d):
     if isinstance(d, datetime.date) and not isinstance(d, datetime.datetime):
         d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
 
-    msec = str(d.microsecond).rjust(6).replace(' ', '0')
+    secs = calendar.timegm(d.utctimetuple())
+    usec = d.microsecond
 
-    return float('%s.%s' % (calendar.timegm(d.utctimetuple()), msec))
+    if secs < 0 and usec:
+        # microseconds count forwards from the second, also before the epoch
+        return -float('%d.%06d' % (-secs - 1, 1000000 - usec))
+
+    return float('%d.%06d' % (secs, usec))
 
 
 def get_datetime(secs):
-- 
2.43.0


From c08be2bd6fc80bd5c27567e20b9a92a0c316cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 004/114] fix: AMF3 mixed arrays with sparse or negative
 integer keys could not be encoded

---
 pyamf/amf3.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d2413f9..4590fb6 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1375,32 +1375,32 @@ class Encoder(codec.Encoder):
             else:
                 raise ValueError("Non int/str key value found in dict")
 
-        # Make sure the integer keys are within range
-        l = len(int_keys)
+        int_keys.sort()
+
+        # Only the run of integer keys that starts at 0 makes up the dense
+        # portion of the array, all other keys are treated as strings
+        dense = 0
 
         for x in int_keys:
-            if l < x <= 0:
-                # treat as a string key
-                str_keys.append(x)
-                del int_keys[int_keys.index(x)]
+            if x != dense:
+                break
 
-        int_keys.sort()
+            dense += 1
 
-        # If integer keys don't start at 0, they will be treated as strings
-        if len(int_keys) > 0 and int_keys[0] != 0:
-            for x in int_keys:
-                str_keys.append(str(x))
-                del int_keys[int_keys.index(x)]
+        values = [(x, n[x]) for x in str_keys]
+        values.extend([
+            (str(x), n[x]) for x in int_keys if not 0 <= x < dense
+        ])
 
-        self._writeInteger(len(int_keys) << 1 | REFERENCE_BIT)
+        self._writeInteger(dense << 1 | REFERENCE_BIT)
 
-        for x in str_keys:
-            self.serialiseString(x)
-            self.writeElement(n[x])
+        for key, value in values:
+            self.serialiseString(key)
+            self.writeElement(value)
 
         self.stream.write_uchar(0x01)
 
-        for k in int_keys:
+        for k in xrange(dense):
             self.writeElement(n[k])
 
     def writeProxy(self, obj):
-- 
2.43.0


From f1dda01894ed7d581ec55fef42527160ed7072fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 005/114] fix: AMF3 XML documents must not use the string
 reference table

---
 pyamf/amf3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 4590fb6..14a2f82 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1548,7 +1548,14 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        self.serialiseString(xml.tostring(n).encode('utf-8'))
+        # the text of a document is not part of the string reference table
+        data = xml.tostring(n)
+
+        if isinstance(data, unicode):
+            data = data.encode('utf-8')
+
+        self._writeInteger((len(data) << 1) | REFERENCE_BIT)
+        self.stream.write(data)
 
 
 def encode_int(n):
-- 
2.43.0


From 963eaa155c469626e95ea6bde25b713fef883e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 006/114] fix: the AMF3 integer cache made out of range
 integers encodable after a negative one

---
 pyamf/amf3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 14a2f82..c959751 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1578,6 +1578,8 @@ def encode_int(n):
     if n < MIN_29B_INT or n > MAX_29B_INT:
         raise OverflowError("Out of range")
 
+    key = n
+
     if n < 0:
         n += 0x20000000
 
@@ -1603,7 +1605,7 @@ def encode_int(n):
     else:
         bytes += chr(n & 0x7f)
 
-    ENCODED_INT_CACHE[n] = bytes
+    ENCODED_INT_CACHE[key] = bytes
 
     return bytes
 
-- 
2.43.0


From 35beb544a1c0e695e65eb3b9059a1c022fb67258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 007/114] fix: an empty attribute name corrupted the AMF3
 stream

---
 pyamf/amf3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index c959751..b6d7e4a 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1503,6 +1503,11 @@ class Encoder(codec.Encoder):
                     if type(attr) in python.int_types:
                         attr = str(attr)
 
+                    if attr == '':
+                        # reads back as the end of the attributes
+                        raise pyamf.EncodeError(
+                            "dicts cannot contain empty string keys")
+
                     self.serialiseString(attr)
                     self.writeElement(value)
 
-- 
2.43.0


From 484ec93e175f5e8477ef266f614ab1324776cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 008/114] fix: keep references to and cycles through list
 subclasses when encoding

---
 pyamf/codec.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index d7b87f2..c481b19 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -181,6 +181,7 @@ class Context(object):
         self._objects.clear()
         self._class_aliases = {}
         self._unicodes = {}
+        self._sequences = {}
         self.extra = {}
 
     def getObject(self, ref):
@@ -210,6 +211,22 @@ class Context(object):
         """
         return self._objects.append(obj)
 
+    def getList(self, iterable):
+        """
+        Returns the C{list} of the elements of C{iterable}. The same list is
+        returned each time so that references to C{iterable} are kept.
+        """
+        try:
+            return self._sequences[id(iterable)][1]
+        except KeyError:
+            pass
+
+        ret = list(iterable)
+        # keep iterable alive, it is identified by its id
+        self._sequences[id(iterable)] = (iterable, ret)
+
+        return ret
+
     def getClassAlias(self, klass):
         """
         Gets a class alias based on the supplied C{klass}. If one is not found
@@ -478,7 +495,7 @@ class Encoder(_Codec):
         try:
             alias = self.context.getClassAlias(iterable.__class__)
         except (AttributeError, pyamf.UnknownClassAlias):
-            self.writeList(list(iterable))
+            self.writeList(self.context.getList(iterable))
 
             return
 
@@ -489,7 +506,7 @@ class Encoder(_Codec):
 
             return
 
-        self.writeList(list(iterable))
+        self.writeList(self.context.getList(iterable))
 
     def writeGenerator(self, gen):
         """
-- 
2.43.0


From c2c0c551efc5e1238befa4bfad1d726d28dc9a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 009/114] fix: a missing nested element was taken for the clean
 end of the stream

---
 pyamf/codec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index c481b19..1b73bea 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -410,6 +410,11 @@ class Decoder(_Codec):
 
         try:
             return func()
+        except pyamf.EOStream:
+            # a nested element is missing, this is not a clean end of stream
+            self.stream.seek(pos)
+
+            raise IOError('Incomplete element')
         except IOError:
             self.stream.seek(pos)
 
-- 
2.43.0


From 817b77d0a081e9945f4c9782120f61f3b0539a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 010/114] fix: raise ReferenceError for unknown AMF3 references
 of every kind

---
 pyamf/amf3.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index b6d7e4a..c017dbf 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -859,6 +859,19 @@ class Decoder(codec.Decoder):
 
         return (x >> 1, x & REFERENCE_BIT == 0)
 
+    def _getReferenced(self, getter, ref):
+        """
+        Returns what C{getter} holds for the reference C{ref}.
+
+        @raise ReferenceError: Unknown reference found.
+        """
+        ret = getter(ref)
+
+        if ret is None:
+            raise pyamf.ReferenceError('Unknown reference %d' % (ref,))
+
+        return ret
+
     def readBytes(self):
         """
         Reads and returns a utf-8 encoded byte array.
@@ -866,7 +879,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            return self.context.getString(length)
+            return self._getReferenced(self.context.getString, length)
 
         if length == 0:
             return ''
@@ -883,7 +896,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            result = self.context.getString(length)
+            result = self._getReferenced(self.context.getString, length)
 
             return self.context.getStringForBytes(result)
 
@@ -904,7 +917,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferenced(self.context.getObject, ref >> 1)
 
         ms = self.stream.read_double()
         result = util.get_datetime(ms / 1000.0)
@@ -927,7 +940,7 @@ class Decoder(codec.Decoder):
         size = self.readInteger(False)
 
         if size & REFERENCE_BIT == 0:
-            return self.context.getObject(size >> 1)
+            return self._getReferenced(self.context.getObject, size >> 1)
 
         size >>= 1
 
@@ -964,9 +977,7 @@ class Decoder(codec.Decoder):
         ref >>= 1
 
         if is_ref:
-            class_def = self.context.getClassByReference(ref)
-
-            return class_def
+            return self._getReferenced(self.context.getClassByReference, ref)
 
         name = self.readBytes()
         alias = None
@@ -1019,12 +1030,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            obj = self.context.getObject(ref >> 1)
-
-            if obj is None:
-                raise pyamf.ReferenceError(
-                    'Unknown reference %d' % (ref >> 1,)
-                )
+            obj = self._getReferenced(self.context.getObject, ref >> 1)
 
             if self.use_proxies is True:
                 obj = self.readProxy(obj)
@@ -1075,7 +1081,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferenced(self.context.getObject, ref >> 1)
 
         xmlstring = self.stream.read(ref >> 1)
 
@@ -1109,7 +1115,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getReferenced(self.context.getObject, ref >> 1)
 
         buffer = self.stream.read(ref >> 1)
         compressed = False
-- 
2.43.0


From e74315e5b637f431e0ddd17b7354251fb3b35c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 011/114] fix: unsigned AMF3 integers with the top bit set were
 read as a different number

---
 pyamf/amf3.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index c017dbf..a0a1e38 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1641,12 +1641,8 @@ def decode_int(stream, signed=False):
         result <<= 8
         result |= b
 
-        if result & 0x10000000 != 0:
-            if signed:
-                result -= 0x20000000
-            else:
-                result <<= 1
-                result += 1
+        if signed and result & 0x10000000 != 0:
+            result -= 0x20000000
 
     return result
 
-- 
2.43.0


From ebdec82216af03750c7b81b6d22b806c984a12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 012/114] fix: forget references of an incomplete element
 before it is decoded again

---
 pyamf/amf0.py  | 23 +++++++++++++++++++++++
 pyamf/amf3.py  | 21 +++++++++++++++++++++
 pyamf/codec.py | 42 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 86 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 0d18836..96c8c6f 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -107,6 +107,29 @@ class Context(codec.Context):
         if decoder:
             decoder.context.clear()
 
+    def mark(self):
+        decoder = self.extra.get('amf3_decoder', None)
+
+        return (
+            codec.Context.mark(self),
+            decoder and decoder.context.mark()
+        )
+
+    def rollback(self, mark):
+        objects, amf3_mark = mark
+
+        codec.Context.rollback(self, objects)
+
+        decoder = self.extra.get('amf3_decoder', None)
+
+        if not decoder:
+            return
+
+        if amf3_mark is None:
+            decoder.context.clear()
+        else:
+            decoder.context.rollback(amf3_mark)
+
     def getAMF3Encoder(self, amf0_encoder):
         encoder = self.extra.get('amf3_encoder', None)
 
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index a0a1e38..1897280 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -629,6 +629,27 @@ class Context(codec.Context):
 
         self.class_idx = 0
 
+    def mark(self):
+        return (
+            codec.Context.mark(self),
+            len(self.strings),
+            self.class_idx
+        )
+
+    def rollback(self, mark):
+        objects, strings, classes = mark
+
+        codec.Context.rollback(self, objects)
+        self.strings.truncate(strings)
+
+        while self.class_idx > classes:
+            self.class_idx -= 1
+            class_def = self.class_ref.pop(self.class_idx)
+
+            for klass, value in self.classes.items():
+                if value is class_def:
+                    del self.classes[klass]
+
     def getString(self, ref):
         """
         Gets a string based on a reference C{ref}.
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 1b73bea..906fbb0 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -92,6 +92,20 @@ class IndexedCollection(object):
 
         return idx
 
+    def truncate(self, size):
+        """
+        Forgets all but the first C{size} objects of this index.
+        """
+        if size == len(self.list):
+            return
+
+        objs = self.list[:size]
+
+        self.clear()
+
+        for obj in objs:
+            self.append(obj)
+
     def __eq__(self, other):
         if isinstance(other, list):
             return self.list == other
@@ -184,6 +198,22 @@ class Context(object):
         self._sequences = {}
         self.extra = {}
 
+    def mark(self):
+        """
+        Returns the current size of the reference tables.
+
+        @see: L{rollback}
+        """
+        return len(self._objects)
+
+    def rollback(self, mark):
+        """
+        Forgets all references that have been added since C{mark} was taken.
+
+        @see: L{mark}
+        """
+        self._objects.truncate(mark)
+
     def getObject(self, ref):
         """
         Gets an object based on a reference.
@@ -427,10 +457,22 @@ class Decoder(_Codec):
         @raise DecodeError: The ActionScript type is unsupported.
         @raise EOStream: No more data left to decode.
         """
+        mark = None
+
+        if self.__depth == 0:
+            mark = self.context.mark()
+
         self.__depth += 1
 
         try:
             element = self._readElement()
+        except IOError:
+            if mark is not None:
+                # the element will be read again from the start once there is
+                # more data, any references it added must not be kept
+                self.context.rollback(mark)
+
+            raise
         finally:
             self.__depth -= 1
 
-- 
2.43.0


From 9b024180844cd57dcd11407230881effb0181baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 013/114] fix: post decode processors were called twice for
 AMF3 elements in AMF0

---
 pyamf/amf0.py  | 1 +
 pyamf/codec.py | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 96c8c6f..b23f0bb 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -157,6 +157,7 @@ class Context(codec.Context):
             stream=amf0_decoder.stream,
             timezone_offset=amf0_decoder.timezone_offset
         )
+        decoder.nested = True
 
         self.extra['amf3_decoder'] = decoder
 
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 906fbb0..4c282f7 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -375,8 +375,13 @@ class Decoder(_Codec):
         being this relates to typed objects in the stream that do not have a
         registered alias. Introduced in 0.4.
     @type strict: C{bool}
+    @ivar nested: Whether this decoder reads parts of the elements of another
+        decoder, which is then the one to finalise them.
+    @type nested: C{bool}
     """
 
+    nested = False
+
     def __init__(self, *args, **kwargs):
         _Codec.__init__(self, *args, **kwargs)
 
@@ -476,7 +481,7 @@ class Decoder(_Codec):
         finally:
             self.__depth -= 1
 
-        if self.__depth == 0:
+        if self.__depth == 0 and not self.nested:
             element = self.finalise(element)
 
         return element
-- 
2.43.0


From 5ce1662cf3d3833035cb609c52bdf1edcc4436b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 014/114] fix: AMF3 elements in AMF0 ignored the strict mode
 and XML settings of the decoder

---
 pyamf/amf0.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index b23f0bb..773681b 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -139,6 +139,7 @@ class Context(codec.Context):
         encoder = pyamf.get_encoder(
             pyamf.AMF3,
             stream=amf0_encoder.stream,
+            strict=amf0_encoder.strict,
             timezone_offset=amf0_encoder.timezone_offset
         )
 
@@ -155,7 +156,10 @@ class Context(codec.Context):
         decoder = pyamf.get_decoder(
             pyamf.AMF3,
             stream=amf0_decoder.stream,
-            timezone_offset=amf0_decoder.timezone_offset
+            strict=amf0_decoder.strict,
+            timezone_offset=amf0_decoder.timezone_offset,
+            forbid_dtd=self.forbid_dtd,
+            forbid_entities=self.forbid_entities
         )
         decoder.nested = True
 
-- 
2.43.0


From f32b417591ab1bd4244a6f41beb5358359a71b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 015/114] fix: amf0.Encoder did not accept its own use_amf3
 argument

---
 pyamf/amf0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 773681b..bcdd23c 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -429,10 +429,10 @@ class Encoder(codec.Encoder):
     """
 
     def __init__(self, *args, **kwargs):
-        codec.Encoder.__init__(self, *args, **kwargs)
-
         self.use_amf3 = kwargs.pop('use_amf3', False)
 
+        codec.Encoder.__init__(self, *args, **kwargs)
+
     def buildContext(self, **kwargs):
         return Context(**kwargs)
 
-- 
2.43.0


From a732d477592dd9c41e4551a355a950f515390cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 016/114] fix: AMF0 attribute and class names of 64k or more
 corrupted the stream

---
 pyamf/amf0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index bcdd23c..5c35260 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -519,10 +519,10 @@ class Encoder(codec.Encoder):
         l = len(s)
 
         if l > 0xffff:
-            self.stream.write_ulong(l)
-        else:
-            self.stream.write_ushort(l)
+            raise pyamf.EncodeError(
+                'Attribute and class names are limited to 65535 bytes')
 
+        self.stream.write_ushort(l)
         self.stream.write(s)
 
     def writeBytes(self, s):
-- 
2.43.0


From bbb90f0494ed6e488d22b36283d41fb8e3b4c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 017/114] fix: the AMF0 object end marker was accepted after a
 name, dropping the attribute

---
 pyamf/amf0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 5c35260..ed0fa8a 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -332,7 +332,8 @@ class Decoder(codec.Decoder):
 
         key = self.readString(True)
 
-        while self.stream.peek() != TYPE_OBJECTTERM:
+        # only an empty name can be followed by the end marker
+        while key or self.stream.peek() != TYPE_OBJECTTERM:
             obj_attrs[key] = self.readElement()
             key = self.readString(True)
 
-- 
2.43.0


From 13beb53bcc66095b83704441d42f5da94475d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 018/114] fix: externalised data for a class that cannot read
 it raised AttributeError

---
 pyamf/amf3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 1897280..352c86c 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1071,7 +1071,14 @@ class Decoder(codec.Decoder):
         if class_def.encoding in (
                 ObjectEncoding.EXTERNAL,
                 ObjectEncoding.PROXY):
-            obj.__readamf__(DataInput(self))
+            readamf = getattr(obj, '__readamf__', None)
+
+            if readamf is None:
+                raise pyamf.DecodeError(
+                    'Unable to read externalised data into %r' % (
+                        alias.klass,))
+
+            readamf(DataInput(self))
 
             if self.use_proxies is True:
                 obj = self.readProxy(obj)
-- 
2.43.0


From 52794941260be51f2a533e7c0e67ec44bed596c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 019/114] fix: class names without a module, or naming no
 class, were not treated as unknown classes

---
 pyamf/__init__.py      | 9 +++------
 pyamf/util/__init__.py | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b71ae91..8ec8510 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -407,10 +407,11 @@ def load_class(alias):
 
         try:
             module = util.get_module(module)
-        except (ImportError, AttributeError):
+        except (ImportError, AttributeError, ValueError):
+            # ValueError is raised for names like 'spam' or 'spam..eggs'
             pass
         else:
-            klass = getattr(module, klass)
+            klass = getattr(module, klass, None)
 
             if isinstance(klass, python.class_types):
                 return register_class(klass, alias)
@@ -419,10 +420,6 @@ def load_class(alias):
                 CLASS_CACHE[klass.klass] = klass
 
                 return klass.klass
-            else:
-                raise TypeError(
-                    "Expecting class type or ClassAlias from loader"
-                )
 
     # All available methods for finding the class have been exhausted
     raise UnknownClassAlias("Unknown alias for %r" % (alias,))
diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 0d51da0..a4fc2e6 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -203,7 +203,7 @@ def get_module(mod_name):
     """
     Load and return a module based on C{mod_name}.
     """
-    if mod_name is '':
+    if not mod_name:
         raise ImportError('Unable to import empty module')
 
     mod = __import__(mod_name)
-- 
2.43.0


From 8fef137681cbe486d65803354ea6e256e60d2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 020/114] fix: compressed byte arrays were not recognised when
 read back

---
 pyamf/amf3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 352c86c..a629d84 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -509,6 +509,8 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
     """
 
     _zlib_header = '\x78\x9c'
+    #: what Flash and L{__str__} write
+    _zlib_best_header = '\x78\xda'
 
     class __amf__:
         amf3 = True
@@ -546,7 +548,7 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
 
         buf = zlib.compress(buf)
         # FIXME nick: hacked
-        return buf[0] + '\xda' + buf[2:]
+        return ByteArray._zlib_best_header + buf[2:]
 
     def compress(self):
         """
@@ -1148,7 +1150,8 @@ class Decoder(codec.Decoder):
         buffer = self.stream.read(ref >> 1)
         compressed = False
 
-        if buffer[0:2] == ByteArray._zlib_header:
+        if buffer[0:2] in (
+                ByteArray._zlib_header, ByteArray._zlib_best_header):
             try:
                 buffer = zlib.decompress(buffer)
                 compressed = True
-- 
2.43.0


From 38a6f6b2074baa5ba8c58c14891dd424c5a2aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 021/114] fix: an incomplete 24 bit read moved the stream
 position

---
 pyamf/util/pure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 07161a5..ab41d6c 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -362,7 +362,7 @@ class DataTypeMixIn(object):
 
         @since: 0.4
         """
-        order = None
+        bytes = self._read(3)
 
         if not self._is_big_endian():
             order = [0, 8, 16]
@@ -371,8 +371,8 @@ class DataTypeMixIn(object):
 
         n = 0
 
-        for x in order:
-            n += (self.read_uchar() << x)
+        for i, x in enumerate(order):
+            n += (ord(bytes[i]) << x)
 
         return n
 
-- 
2.43.0


From bd0854b89efa0c156667a45084b4ecb84ec87397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 022/114] fix: peek, remaining and at_eof were wrong with the
 position beyond the end

---
 pyamf/util/pure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index ab41d6c..d10f68f 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -561,7 +561,7 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         @return: Bytes.
         """
         if size == -1:
-            return self.peek(len(self) - self.tell())
+            return self.peek(self.remaining())
 
         if size < -1:
             raise ValueError("Cannot peek backwards")
@@ -583,7 +583,7 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         @rtype: C{number}
         @return: Number of remaining bytes.
         """
-        return len(self) - self.tell()
+        return max(len(self) - self.tell(), 0)
 
     def at_eof(self):
         """
@@ -591,7 +591,7 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
 
         @rtype: C{bool}
         """
-        return self.tell() == len(self)
+        return self.tell() >= len(self)
 
     def append(self, data):
         """
-- 
2.43.0


From 897e0dfcb1335daccdd39fd19c89e94f70552e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 023/114] fix: truncating a stream to more than its length
 raised an error and lost the position

---
 pyamf/util/pure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index d10f68f..94b6fd4 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -107,6 +107,9 @@ class StringIOProxy(object):
 
             return
 
+        if size >= len(self):
+            return
+
         cur_pos = self.tell()
         self.seek(0)
         buf = self.read(size)
-- 
2.43.0


From 23614dd99a5e80114072844ba5e0da2c332e789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 024/114] fix: an empty stream could not be added to another

---
 pyamf/util/pure.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 94b6fd4..1278d54 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -618,17 +618,10 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         self.seek(t)
 
     def __add__(self, other):
-        old_pos = self.tell()
-        old_other_pos = other.tell()
-
         new = BufferedByteStream(self)
 
-        other.seek(0)
         new.seek(0, 2)
-        new.write(other.read())
-
-        self.seek(old_pos)
-        other.seek(old_other_pos)
+        new.write(other.getvalue())
         new.seek(0)
 
         return new
-- 
2.43.0


From f7589f9d5ae936072dfbc982b2bfc6967e50058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 025/114] fix: 4 byte integers were 8 bytes in native byte
 order on 64 bit platforms

---
 pyamf/util/pure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 1278d54..c4e8a2a 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -317,7 +317,7 @@ class DataTypeMixIn(object):
         """
         Reads a 4 byte unsigned integer from the stream.
         """
-        return struct.unpack("%sL" % self.endian, self._read(4))[0]
+        return struct.unpack("%sI" % self.endian, self._read(4))[0]
 
     def write_ulong(self, l):
         """
@@ -334,13 +334,13 @@ class DataTypeMixIn(object):
         if not 0 <= l <= 4294967295:
             raise OverflowError("Not in range, %d" % l)
 
-        self.write(struct.pack("%sL" % self.endian, l))
+        self.write(struct.pack("%sI" % self.endian, l))
 
     def read_long(self):
         """
         Reads a 4 byte integer from the stream.
         """
-        return struct.unpack("%sl" % self.endian, self._read(4))[0]
+        return struct.unpack("%si" % self.endian, self._read(4))[0]
 
     def write_long(self, l):
         """
@@ -357,7 +357,7 @@ class DataTypeMixIn(object):
         if not -2147483648 <= l <= 2147483647:
             raise OverflowError("Not in range, %d" % l)
 
-        self.write(struct.pack("%sl" % self.endian, l))
+        self.write(struct.pack("%si" % self.endian, l))
 
     def read_24bit_uint(self):
         """
-- 
2.43.0


From 51a2e855c739aa6ca7f5a05f58ee357d61d6ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 026/114] fix: a refused append moved the stream position to
 the end

---
 pyamf/util/pure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index c4e8a2a..b507360 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -610,12 +610,13 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         # seek to the end of the stream
         self.seek(0, 2)
 
-        if hasattr(data, 'getvalue'):
-            self.write_utf8_string(data.getvalue())
-        else:
-            self.write_utf8_string(data)
-
-        self.seek(t)
+        try:
+            if hasattr(data, 'getvalue'):
+                self.write_utf8_string(data.getvalue())
+            else:
+                self.write_utf8_string(data)
+        finally:
+            self.seek(t)
 
     def __add__(self, other):
         new = BufferedByteStream(self)
-- 
2.43.0


From 6526f7e2bc4ac6163e1bef3d25c254d3d7623fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 027/114] fix: excluded static attributes were encoded

---
 pyamf/alias.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 1ef3af3..9a516d0 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -227,9 +227,9 @@ class ClassAlias(object):
             if self.exclude_attrs:
                 self.static_attrs_set.difference_update(self.exclude_attrs)
 
-            for a in self.static_attrs_set:
-                if a not in self.static_attrs:
-                    self.static_attrs.remove(a)
+            self.static_attrs = [
+                a for a in self.static_attrs if a in self.static_attrs_set
+            ]
 
         if not self.exclude_attrs:
             self.exclude_attrs = None
-- 
2.43.0


From 9fee49dacaf9229cacbc9cdffba1ef5ff18e01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 028/114] fix: static attributes were lost, or filters not
 applied, when decoding

---
 pyamf/alias.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 9a516d0..97ee9b7 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -486,11 +486,6 @@ class ClassAlias(object):
                     )
                 )
 
-            props.difference_update(self.static_attrs)
-
-        if not props:
-            return attrs
-
         if not self.dynamic:
             if not self.decodable_properties:
                 props = set()
-- 
2.43.0


From cd83022896f3ca2970589672afb48c03c737790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 029/114] fix: attribute rules did not apply to attributes with
 a synonym

---
 pyamf/alias.py | 48 +++++++++++++++++++++++++++++-------------------
 pyamf/amf0.py  |  1 +
 pyamf/amf3.py  |  6 ++++--
 3 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 97ee9b7..42763be 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -444,17 +444,32 @@ class ClassAlias(object):
                     attrs[k] = context.getProxyForObject(v)
 
         if self.synonym_attrs:
-            missing = object()
+            attrs = self._rename(attrs, self.synonym_attrs)
 
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(k, missing)
+        return attrs
 
-                if value is missing:
-                    continue
+    def getSynonym(self, attr):
+        """
+        Returns the name under which C{attr} is encoded.
+        """
+        if self.synonym_attrs:
+            return self.synonym_attrs.get(attr, attr)
 
-                attrs[v] = value
+        return attr
 
-        return attrs
+    def _rename(self, attrs, names):
+        ret = {}
+        renamed = {}
+
+        for k, v in attrs.iteritems():
+            if k in names:
+                renamed[names[k]] = v
+            else:
+                ret[k] = v
+
+        ret.update(renamed)
+
+        return ret
 
     def getDecodableAttributes(self, obj, attrs, codec=None):
         """
@@ -474,6 +489,13 @@ class ClassAlias(object):
 
         changed = False
 
+        if self.synonym_attrs:
+            # all the filters are declared in terms of the Python names
+            attrs = self._rename(
+                attrs,
+                dict((v, k) for k, v in self.synonym_attrs.iteritems())
+            )
+
         props = set(attrs.keys())
 
         if self.static_attrs:
@@ -514,23 +536,11 @@ class ClassAlias(object):
                 attrs[k] = context.getObjectForProxy(v)
 
         if changed:
-            # apply all filters before synonyms
             a = {}
 
             [a.__setitem__(p, attrs[p]) for p in props]
             attrs = a
 
-        if self.synonym_attrs:
-            missing = object()
-
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(v, missing)
-
-                if value is missing:
-                    continue
-
-                attrs[k] = value
-
         return attrs
 
     def applyAttributes(self, obj, attrs, codec=None):
diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index ed0fa8a..429ab0d 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -646,6 +646,7 @@ class Encoder(codec.Encoder):
 
         if alias.static_attrs and attrs:
             for key in alias.static_attrs:
+                key = alias.getSynonym(key)
                 value = attrs.pop(key)
 
                 self.serialiseString(key)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index a629d84..4c6352e 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1523,10 +1523,12 @@ class Encoder(codec.Encoder):
         attrs = alias.getEncodableAttributes(obj, codec=self)
 
         if alias.static_attrs:
+            static_attrs = [alias.getSynonym(a) for a in alias.static_attrs]
+
             if not class_ref:
-                [self.serialiseString(attr) for attr in alias.static_attrs]
+                [self.serialiseString(attr) for attr in static_attrs]
 
-            for attr in alias.static_attrs:
+            for attr in static_attrs:
                 value = attrs.pop(attr)
 
                 self.writeElement(value)
-- 
2.43.0


From 969918cd182a855e441f5694ff3bec7d5be07691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 030/114] fix: synonyms and proxies were ignored for classes
 that are not dynamic

---
 pyamf/alias.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 42763be..da509a0 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -413,27 +413,23 @@ class ClassAlias(object):
                     attrs[attr] = pyamf.Undefined
 
         if not self.dynamic:
-            if self.non_static_encodable_properties:
-                for attr in self.non_static_encodable_properties:
-                    attrs[attr] = self.getAttribute(obj, attr, codec=codec)
-
-            return attrs
-
-        dynamic_props = util.get_properties(obj)
+            props = self.non_static_encodable_properties or []
+        else:
+            props = util.get_properties(obj)
 
-        if not self.shortcut_encode:
-            dynamic_props = set(dynamic_props)
+            if not self.shortcut_encode:
+                props = set(props)
 
-            if self.encodable_properties:
-                dynamic_props.update(self.encodable_properties)
+                if self.encodable_properties:
+                    props.update(self.encodable_properties)
 
-            if self.static_attrs:
-                dynamic_props.difference_update(self.static_attrs)
+                if self.static_attrs:
+                    props.difference_update(self.static_attrs)
 
-            if self.exclude_attrs:
-                dynamic_props.difference_update(self.exclude_attrs)
+                if self.exclude_attrs:
+                    props.difference_update(self.exclude_attrs)
 
-        for attr in dynamic_props:
+        for attr in props:
             attrs[attr] = self.getAttribute(obj, attr, codec=codec)
 
         if self.proxy_attrs is not None and attrs and codec:
-- 
2.43.0


From d90079af4cbbe48f275cf525c23ee7f1c5bbfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 031/114] fix: a class without synonyms could not derive from
 one with synonyms

---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index da509a0..50bb8e5 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -191,7 +191,7 @@ class ClassAlias(object):
         if alias.synonym_attrs:
             x = self.synonym_attrs
             self.synonym_attrs = alias.synonym_attrs.copy()
-            self.synonym_attrs.update(x)
+            self.synonym_attrs.update(x or {})
 
     def _finalise_compile(self):
         if self.dynamic is None:
-- 
2.43.0


From f038c551fe3a5ccc3dac325d5d7ec3e2f770339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 032/114] fix: classes with proxied attributes could not be
 used with AMF0

---
 pyamf/alias.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 50bb8e5..27ce10a 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -432,7 +432,9 @@ class ClassAlias(object):
         for attr in props:
             attrs[attr] = self.getAttribute(obj, attr, codec=codec)
 
-        if self.proxy_attrs is not None and attrs and codec:
+        # proxies only exist in AMF3
+        if self.proxy_attrs is not None and attrs and codec and \
+                hasattr(codec.context, 'getProxyForObject'):
             context = codec.context
 
             for k, v in attrs.copy().iteritems():
@@ -520,7 +522,8 @@ class ClassAlias(object):
             props.difference_update(self.exclude_attrs)
             changed = True
 
-        if self.proxy_attrs is not None and codec:
+        if self.proxy_attrs is not None and codec and \
+                hasattr(codec.context, 'getObjectForProxy'):
             context = codec.context
 
             for k in self.proxy_attrs:
-- 
2.43.0


From cafd58494822830ec26ab4cd6185c0726f81394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 033/114] fix: the dynamic setting of the farthest base class
 was inherited instead of the nearest

---
 pyamf/alias.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 27ce10a..74ab1e3 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -182,8 +182,9 @@ class ClassAlias(object):
         if self.amf3 is None and alias.amf3:
             self.amf3 = alias.amf3
 
-        if self.dynamic is None and alias.dynamic is not None:
-            self.inherited_dynamic = alias.dynamic
+        if self.inherited_dynamic is None:
+            # the nearest class that says so
+            self.inherited_dynamic = alias.declared_dynamic
 
         if alias.sealed is not None:
             self.inherited_sealed = alias.sealed
@@ -194,7 +195,10 @@ class ClassAlias(object):
             self.synonym_attrs.update(x or {})
 
     def _finalise_compile(self):
+        self.declared_dynamic = self.dynamic
+
         if self.dynamic is None:
+            self.declared_dynamic = self.inherited_dynamic
             self.dynamic = True
 
             if self.inherited_dynamic is not None:
-- 
2.43.0


From 6277383fa6b5a64215603f3f6b6679127113d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 034/114] fix: excluded attributes and synonyms were ignored
 when encoding subclasses of dict

---
 pyamf/alias.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 74ab1e3..7cabccb 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -402,7 +402,16 @@ class ClassAlias(object):
             self.compile()
 
         if self.is_dict:
-            return dict(obj)
+            attrs = dict(obj)
+
+            if self.exclude_attrs:
+                for attr in self.exclude_attrs:
+                    attrs.pop(attr, None)
+
+            if self.synonym_attrs:
+                attrs = self._rename(attrs, self.synonym_attrs)
+
+            return attrs
 
         if self.shortcut_encode and self.dynamic:
             return obj.__dict__.copy()
-- 
2.43.0


From 91085c00232325c9f79f87ed914f5100f1bab3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 035/114] fix: proxied attributes were not unwrapped when
 decoding unless another rule was declared

---
 pyamf/alias.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 7cabccb..9e715e0 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -294,7 +294,8 @@ class ClassAlias(object):
 
         if (self.decodable_properties or self.static_attrs or
                 self.exclude_attrs or self.readonly_attrs or
-                not self.dynamic or self.external or self.synonym_attrs):
+                self.proxy_attrs or not self.dynamic or self.external or
+                self.synonym_attrs):
             self.shortcut_decode = False
 
         self.is_dict = False
-- 
2.43.0


From 6dff6266713e0e04c74a3b28499db5b7d01e3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 036/114] fix: loading a class alias from a module returned its
 class instead of the alias

---
 pyamf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 8ec8510..e49e706 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -419,7 +419,7 @@ def load_class(alias):
                 CLASS_CACHE[klass.alias] = klass
                 CLASS_CACHE[klass.klass] = klass
 
-                return klass.klass
+                return klass
 
     # All available methods for finding the class have been exhausted
     raise UnknownClassAlias("Unknown alias for %r" % (alias,))
-- 
2.43.0


From 7c6542788da5260eafef3e205637be3929b332ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 037/114] fix: unregistering a class removed a later
 registration of its alias

---
 pyamf/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index e49e706..2104811 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -284,10 +284,12 @@ def unregister_class(alias):
     except KeyError:
         raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
-    if not x.anonymous:
+    # the alias or the class may have been registered again since
+    if not x.anonymous and CLASS_CACHE.get(x.alias) is x:
         del CLASS_CACHE[x.alias]
 
-    del CLASS_CACHE[x.klass]
+    if CLASS_CACHE.get(x.klass) is x:
+        del CLASS_CACHE[x.klass]
 
     return x
 
-- 
2.43.0


From dd4e814903f58aa754e066254cfe2a8310ef577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 038/114] fix: small async messages were not recognised before
 the flex messages were imported

---
 pyamf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 2104811..87c75b1 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -554,12 +554,12 @@ def blaze_loader(alias):
         ISmallMessage.html>}
     @since: 0.5
     """
-    if alias not in ['DSC', 'DSK']:
+    if alias not in ['DSA', 'DSC', 'DSK']:
         return
 
     import pyamf.flex.messaging  # noqa
 
-    return CLASS_CACHE[alias]
+    return CLASS_CACHE.get(alias)
 
 
 def flex_loader(alias):
-- 
2.43.0


From cbe9c095893e98d2761ef2711b39d78c17c58d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 039/114] fix: alias types could not be registered when one of
 their classes was registered without an alias

---
 pyamf/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 87c75b1..9abbefe 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -784,17 +784,23 @@ def register_alias_type(klass, *args):
 
     ALIAS_TYPES[klass] = args
 
+    replaced = {}
+
     for k, v in CLASS_CACHE.copy().iteritems():
         new_alias = util.get_class_alias(v.klass)
 
         if new_alias is klass:
-            meta = util.get_class_meta(v.klass)
-            meta['alias'] = v.alias
+            alias_klass = replaced.get(id(v))
+
+            if alias_klass is None:
+                meta = util.get_class_meta(v.klass)
+
+                if not v.anonymous:
+                    meta['alias'] = v.alias
 
-            alias_klass = klass(v.klass, **meta)
+                alias_klass = replaced[id(v)] = klass(v.klass, **meta)
 
             CLASS_CACHE[k] = alias_klass
-            CLASS_CACHE[v.klass] = alias_klass
 
 
 def unregister_alias_type(klass):
-- 
2.43.0


From 246c30191c0284f8c65e54acb6614391b7ea4c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 040/114] fix: remove_type accepts a list of types as add_type
 does

---
 pyamf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 9abbefe..3aa4d5d 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -645,6 +645,9 @@ def remove_type(type_):
     """
     declaration = get_type(type_)
 
+    if isinstance(type_, list):
+        type_ = tuple(type_)
+
     del TYPE_MAP[type_]
 
     return declaration
-- 
2.43.0


From 8309cf8faa2a772837fb76715553a57bb10c867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 041/114] fix: custom type mappings are decided for each value

---
 pyamf/codec.py | 57 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 4c282f7..fb1bbd3 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -518,6 +518,12 @@ class Encoder(_Codec):
     object using L{send} and get AMF bytes out using L{next}.
     """
 
+    #: Types of values that custom type mappings do not apply to.
+    _unmapped_types = (
+        bool, float, list, tuple, types.GeneratorType, pyamf.UndefinedType,
+        datetime.date, datetime.datetime, datetime.time
+    ) + python.int_types
+
     def __init__(self, *args, **kwargs):
         _Codec.__init__(self, *args, **kwargs)
 
@@ -606,11 +612,16 @@ class Encoder(_Codec):
 
         # check for any overridden types
         for type_, func in pyamf.TYPE_MAP.iteritems():
-            try:
-                if isinstance(data, type_):
-                    return _CustomTypeFunc(self, func)
-            except TypeError:
-                if python.callable(type_) and type_(data):
+            if type(type_) is not tuple:
+                type_ = (type_,)
+
+            for t_ in type_:
+                if isinstance(t_, python.class_types):
+                    matched = isinstance(data, t_)
+                else:
+                    matched = t_(data)
+
+                if matched:
                     return _CustomTypeFunc(self, func)
 
         if isinstance(data, (list, tuple)):
@@ -636,21 +647,47 @@ class Encoder(_Codec):
         type, then L{pyamf.EncodeError} will be raised.
         """
         key = type(data)
-        func = None
 
-        try:
-            func = self._func_cache[key]
-        except KeyError:
+        if key is types.InstanceType:
+            # the instances of all classic classes share this type
+            key = data.__class__
+
+        func = self._func_cache.get(key, None)
+
+        if func is None:
             func = self.getTypeFunc(data)
 
             if func is None:
                 raise pyamf.EncodeError('Unable to encode %r (type %r)' % (
                     data, key))
 
-            self._func_cache[key] = func
+            if not self._depends_on_value(data):
+                self._func_cache[key] = func
 
         func(data)
 
+    def _depends_on_value(self, data):
+        """
+        Whether a callable in L{pyamf.TYPE_MAP} has to be consulted to find out
+        how C{data} is encoded, so that other values of its type may be encoded
+        differently.
+        """
+        if data is None or isinstance(data, basestring):
+            return False
+
+        if type(data) in self._unmapped_types:
+            return False
+
+        for type_ in pyamf.TYPE_MAP:
+            if type(type_) is not tuple:
+                type_ = (type_,)
+
+            for t in type_:
+                if not isinstance(t, python.class_types):
+                    return True
+
+        return False
+
     def send(self, element):
         self.bucket.append(element)
 
-- 
2.43.0


From 8bc65ff3cd044a7c568a2941edeee21f1ac685dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 042/114] fix: a dead weak reference is encoded as null

---
 pyamf/adapters/_weakref.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/adapters/_weakref.py b/pyamf/adapters/_weakref.py
index ba0fbad..b5861ec 100644
--- a/pyamf/adapters/_weakref.py
+++ b/pyamf/adapters/_weakref.py
@@ -20,8 +20,14 @@ class Foo(object):
 weakref_type = type(weakref.ref(Foo()))
 
 
-def get_referent(reference, **kwargs):
-    return reference()
+def get_referent(reference, encoder, **kwargs):
+    referent = reference()
+
+    if referent is None:
+        # a mapping that returns None is to write the value itself
+        encoder.writeElement(None)
+
+    return referent
 
 
 pyamf.add_type(weakref_type, get_referent)
-- 
2.43.0


From 80201c8b89ad0265d9cd33dae6755214f12b4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 043/114] fix: modules are refused by the encoders

---
 pyamf/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index fb1bbd3..4bc4939 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -634,7 +634,7 @@ class Encoder(_Codec):
         elif isinstance(data, python.func_types):
             # can't encode code objects
             return None
-        elif isinstance(t, types.ModuleType):
+        elif isinstance(data, types.ModuleType):
             # cannot encode module objects
             return None
 
-- 
2.43.0


From ad9fdacbdb271c17f3c4581bc3204948b4428c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 044/114] fix: a generator inside another element is encoded as
 a list

---
 pyamf/amf0.py              |  7 ++++---
 pyamf/codec.py             | 35 ++++++++++++++++++++++++++++++++---
 pyamf/remoting/__init__.py | 13 +++++++++++--
 3 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 429ab0d..08dfd89 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -17,6 +17,7 @@ LocalConnection, SharedObjects and other classes in the Adobe Flash Player.
 """
 
 import datetime
+import types
 
 import pyamf
 from pyamf import util, codec, xml, python
@@ -438,11 +439,11 @@ class Encoder(codec.Encoder):
         return Context(**kwargs)
 
     def getTypeFunc(self, data):
-        if self.use_amf3:
-            return self.writeAMF3
-
         t = type(data)
 
+        if self.use_amf3 and t is not types.GeneratorType:
+            return self.writeAMF3
+
         if t is pyamf.MixedArray:
             return self.writeMixedArray
 
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 4bc4939..dcd3859 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -503,7 +503,7 @@ class _CustomTypeFunc(object):
         ret = self.func(data, encoder=self.encoder)
 
         if ret is not None:
-            self.encoder.writeElement(ret)
+            self.encoder._writeInstead(ret)
 
 
 class Encoder(_Codec):
@@ -528,6 +528,8 @@ class Encoder(_Codec):
         _Codec.__init__(self, *args, **kwargs)
 
         self.bucket = []
+        # how many elements are being written right now
+        self._depth = 0
 
     def _write_type(self, obj, **kwargs):
         """
@@ -569,15 +571,25 @@ class Encoder(_Codec):
     def writeGenerator(self, gen):
         """
         Iterates over a generator object and encodes all that is returned.
+
+        A generator that is part of another element is written as the list of
+        what it returns, as exactly one element is expected there.
         """
+        if self._depth > 1:
+            self.writeList(list(gen))
+
+            return
+
         n = getattr(gen, 'next')
 
         while True:
             try:
-                self.writeElement(n())
+                element = n()
             except StopIteration:
                 break
 
+            self._writeInstead(element)
+
     def getTypeFunc(self, data):
         """
         Returns a callable that will encode C{data} to C{self.stream}. If
@@ -664,7 +676,24 @@ class Encoder(_Codec):
             if not self._depends_on_value(data):
                 self._func_cache[key] = func
 
-        func(data)
+        self._depth += 1
+
+        try:
+            func(data)
+        finally:
+            self._depth -= 1
+
+    def _writeInstead(self, data):
+        """
+        Writes C{data} in the place of the element that is being written.
+        """
+        depth = self._depth
+        self._depth = max(depth - 1, 0)
+
+        try:
+            self.writeElement(data)
+        finally:
+            self._depth = depth
 
     def _depends_on_value(self, data):
         """
diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f683b58..2143cb9 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -26,6 +26,8 @@ essential for the Adobe Flash Player to understand the response therefore.
 @since: 0.1
 """
 
+import types
+
 import pyamf
 from pyamf import util
 
@@ -511,16 +513,23 @@ def _write_body(name, message, stream, encoder, strict=False):
     @param strict: Use strict encoding policy. Default is C{False}.
     @type strict: C{boolean}
     """
+    def _write_one(element):
+        # at the top level, each item of a generator is an element of its own
+        if isinstance(element, types.GeneratorType):
+            element = list(element)
+
+        encoder.writeElement(element)
+
     def _encode_body(message):
         if isinstance(message, Response):
-            encoder.writeElement(message.body)
+            _write_one(message.body)
 
             return
 
         stream.write('\x0a')
         stream.write_ulong(len(message.body))
         for x in message.body:
-            encoder.writeElement(x)
+            _write_one(x)
 
     if not isinstance(message, (Request, Response)):
         raise TypeError("Unknown message type")
-- 
2.43.0


From 9f0f7f64a6dbe582988651f653e5870fcb94045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 045/114] fix: classes that have a metaclass are refused by the
 encoders

---
 pyamf/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index dcd3859..6732cba 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -640,7 +640,7 @@ class Encoder(_Codec):
             return self.writeSequence
 
         # now try some types that won't encode
-        if t in python.class_types:
+        if isinstance(data, python.class_types):
             # can't encode classes
             return None
         elif isinstance(data, python.func_types):
-- 
2.43.0


From ba1bb36dcf65ed17b1041c3f492e06d6ec119f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 046/114] fix: the lengths of non-ASCII header names and
 request ids were wrong

---
 pyamf/remoting/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 2143cb9..b44b269 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -399,6 +399,16 @@ def _read_header(stream, decoder, strict=False):
     return (name, required, data)
 
 
+def _to_bytes(name):
+    """
+    The utf-8 encoded form of a name in the packet.
+    """
+    if isinstance(name, unicode):
+        name = name.encode('utf-8')
+
+    return name
+
+
 def _write_header(name, header, required, stream, encoder, strict=False):
     """
     Write AMF message header.
@@ -413,6 +423,8 @@ def _write_header(name, header, required, stream, encoder, strict=False):
         the correct header length after writing the header.
     @type strict: C{boolean}
     """
+    name = _to_bytes(name)
+
     stream.write_ushort(len(name))
     stream.write_utf8_string(name)
 
@@ -549,7 +561,7 @@ def _write_body(name, message, stream, encoder, strict=False):
     response = 'null'
 
     if isinstance(message, Request):
-        response = name
+        response = _to_bytes(name)
 
     stream.write_ushort(len(response))
     stream.write_utf8_string(response)
-- 
2.43.0


From cdd883d80cc4a29f1c86b0dd496d2543b516150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 047/114] fix: references are local to each header of an
 envelope

---
 pyamf/remoting/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index b44b269..ce910e0 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -672,6 +672,8 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
     header_count = stream.read_ushort()
 
     for i in xrange(header_count):
+        context.clear()
+
         name, required, data = _read_header(stream, decoder, strict)
         msg.headers[name] = data
 
@@ -728,6 +730,8 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     stream.write_ushort(len(msg.headers))
 
     for name, header in msg.headers.iteritems():
+        encoder.context.clear()
+
         _write_header(
             name,
             header,
-- 
2.43.0


From 80af23342c9538cbfd5ac8b7df7361849613b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 048/114] fix: the number of bodies in an envelope is unsigned

---
 pyamf/remoting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index ce910e0..8e74f60 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -680,7 +680,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         if required:
             msg.headers.set_required(name)
 
-    body_count = stream.read_short()
+    body_count = stream.read_ushort()
 
     for i in xrange(body_count):
         context.clear()
@@ -741,7 +741,7 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
             strict,
         )
 
-    stream.write_short(len(msg))
+    stream.write_ushort(len(msg))
 
     for name, message in msg.iteritems():
         encoder.context.clear()
-- 
2.43.0


From fef9511fbb9cfa0d45a00f1e9766f085d1fd8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 049/114] fix: a response id that ends like a status lost its
 end

---
 pyamf/remoting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 8e74f60..e987947 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -490,6 +490,8 @@ def _read_body(stream, decoder, strict=False, logger=None):
         status = code
         target = target[:0 - len(s)]
 
+        break
+
     data_len = stream.read_ulong()
     pos = stream.tell()
 
-- 
2.43.0


From 8231a5e1ee14843812d0b154f381248008c7d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 050/114] fix: headers could not be made optional and a deleted
 header was still required

---
 pyamf/remoting/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index e987947..02c5b16 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -104,9 +104,18 @@ class HeaderCollection(dict):
         if idx not in self:
             raise KeyError("Unknown header %s" % str(idx))
 
-        if idx not in self.required and value:
+        if not value:
+            if idx in self.required:
+                self.required.remove(idx)
+        elif idx not in self.required:
             self.required.append(idx)
 
+    def __delitem__(self, idx):
+        dict.__delitem__(self, idx)
+
+        if idx in self.required:
+            self.required.remove(idx)
+
     def __len__(self):
         return len(self.keys())
 
-- 
2.43.0


From 9d8746f43a4953c6ae84ed5ce310735353dee2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 051/114] fix: trailing data in a strict packet is a decode
 error

---
 pyamf/remoting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 02c5b16..585c2f6 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -700,7 +700,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         msg[target] = payload
 
     if strict and stream.remaining() > 0:
-        raise RuntimeError("Unable to fully consume the buffer")
+        raise pyamf.DecodeError("Unable to fully consume the buffer")
 
     return msg
 
-- 
2.43.0


From 61a6ba8c1bdc2a50b28adeb4f331e8c1b99742ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 052/114] fix: messages with the same id replaced each other
 when an envelope was decoded

---
 pyamf/remoting/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 585c2f6..761c62c 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -697,7 +697,9 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         context.clear()
 
         target, payload = _read_body(stream, decoder, strict, logger)
-        msg[target] = payload
+        # the same target may be used more than once
+        msg.bodies.append((target, payload))
+        payload.envelope = msg
 
     if strict and stream.remaining() > 0:
         raise pyamf.DecodeError("Unable to fully consume the buffer")
-- 
2.43.0


From c65a0c393f68aa9ca708d5f54dfb8e16ac44dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 053/114] fix: faults with unusual attributes or another level
 could not be decoded

---
 pyamf/remoting/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 761c62c..f40f419 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -627,11 +627,18 @@ def get_fault(data):
 
     for x, y in data.iteritems():
         if isinstance(x, unicode):
-            e[str(x)] = y
-        else:
+            x = x.encode('utf-8')
+
+        # whatever else has been sent
+        if x not in ('self', 'level'):
             e[x] = y
 
-    return get_fault_class(level, **e)(**e)
+    fault = get_fault_class(level, **e)(**e)
+
+    if fault.level != level:
+        fault.level = level
+
+    return fault
 
 
 def decode(stream, strict=False, logger=None, timezone_offset=None,
-- 
2.43.0


From e7cfaaa71b9514b33066d390325f6ef4b4292d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 054/114] fix: a packet that ends before an element is a decode
 error

---
 pyamf/remoting/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f40f419..807c6ab 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -665,6 +665,13 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
     if not isinstance(stream, util.BufferedByteStream):
         stream = util.BufferedByteStream(stream)
 
+    try:
+        return _decode(stream, strict, logger, timezone_offset, **kwargs)
+    except pyamf.EOStream:
+        raise pyamf.DecodeError('The message is not complete')
+
+
+def _decode(stream, strict, logger, timezone_offset, **kwargs):
     msg = Envelope()
     msg.amfVersion = stream.read_ushort()
 
-- 
2.43.0


From 44412145ac0ab75faa983db20f6579bc4b30a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 055/114] fix: malformed values in a packet are reported as
 decode errors

---
 pyamf/remoting/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 807c6ab..2d3180d 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -669,6 +669,11 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         return _decode(stream, strict, logger, timezone_offset, **kwargs)
     except pyamf.EOStream:
         raise pyamf.DecodeError('The message is not complete')
+    except pyamf.DecodeError:
+        raise
+    except (pyamf.BaseError, ValueError, OverflowError, SyntaxError), e:
+        # a value in the message is not valid, e.g. text or a reference
+        raise pyamf.DecodeError('%s: %r' % (e.__class__.__name__, e.args))
 
 
 def _decode(stream, strict, logger, timezone_offset, **kwargs):
-- 
2.43.0


From 635ed55849e6254d59b9fb810098d7705d8a77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 056/114] fix: requests with the same id were not all answered

---
 pyamf/remoting/__init__.py       | 15 ++++++++++++---
 pyamf/remoting/gateway/django.py |  5 ++++-
 pyamf/remoting/gateway/wsgi.py   |  5 ++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 2d3180d..bfd8b97 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -173,6 +173,17 @@ class Envelope(object):
 
         value.envelope = self
 
+    def append(self, name, value):
+        """
+        Adds a message, keeping any other that already has this name.
+        """
+        if not isinstance(value, Message):
+            raise TypeError("Message instance expected")
+
+        self.bodies.append((name, value))
+
+        value.envelope = self
+
     def __getitem__(self, name):
         for body in self.bodies:
             if name == body[0]:
@@ -716,9 +727,7 @@ def _decode(stream, strict, logger, timezone_offset, **kwargs):
         context.clear()
 
         target, payload = _read_body(stream, decoder, strict, logger)
-        # the same target may be used more than once
-        msg.bodies.append((target, payload))
-        payload.envelope = msg
+        msg.append(target, payload)
 
     if strict and stream.remaining() > 0:
         raise pyamf.DecodeError("Unable to fully consume the buffer")
diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 42e4788..bca4cb3 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -81,7 +81,10 @@ class DjangoGateway(gateway.BaseGateway):
             http_request.amf_request = message
 
             processor = self.getProcessor(message)
-            response[name] = processor(message, http_request=http_request)
+            response.append(
+                name,
+                processor(message, http_request=http_request)
+            )
 
         return response
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index d5d7d6f..a3eaede 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -48,7 +48,10 @@ class WSGIGateway(gateway.BaseGateway):
         for name, message in request:
             processor = self.getProcessor(message)
             environ['pyamf.request'] = message
-            response[name] = processor(message, http_request=environ)
+            response.append(
+                name,
+                processor(message, http_request=environ)
+            )
 
         return response
 
-- 
2.43.0


From 8b6ae927cc755eb00b84c1d75314377ca48236c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 057/114] fix: an exception that is not printable failed all
 requests of a packet

---
 pyamf/remoting/__init__.py | 17 +++++++++++++++++
 pyamf/remoting/amf0.py     |  6 ++++--
 pyamf/remoting/amf3.py     |  8 ++++----
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index bfd8b97..da69871 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -794,6 +794,23 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     return stream
 
 
+def to_text(obj):
+    """
+    Describes C{obj} to the other side, whatever it is.
+    """
+    try:
+        return unicode(obj)
+    except UnicodeError:
+        pass
+    except Exception:
+        return u'<unprintable %s object>' % (type(obj).__name__,)
+
+    try:
+        return str(obj).decode('utf-8', 'replace')
+    except Exception:
+        return u'<unprintable %s object>' % (type(obj).__name__,)
+
+
 def get_exception_from_fault(fault):
     return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
 
diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 8ccf49d..f96ccf3 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -182,10 +182,12 @@ def build_fault(cls, e, tb, include_traceback=False):
     details = None
 
     if include_traceback:
-        details = traceback.format_exception(cls, e, tb)
+        details = [
+            remoting.to_text(x) for x in traceback.format_exception(cls, e, tb)
+        ]
 
     return remoting.ErrorFault(
         code=code,
-        description=unicode(e),
+        description=remoting.to_text(e),
         details=details
     )
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index ff26949..1c23279 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -71,19 +71,19 @@ def generate_error(request, cls, e, tb, include_traceback=False):
 
         traceback.print_exception(cls, e, tb, file=buffer)
 
-        details = buffer.getvalue()
+        details = remoting.to_text(buffer.getvalue())
 
     faultDetail = None
     faultString = None
 
     if hasattr(e, 'message'):
-        faultString = unicode(e.message)
+        faultString = remoting.to_text(e.message)
     elif hasattr(e, 'args') and e.args:
         if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = unicode(e.args[0])
+            faultString = remoting.to_text(e.args[0])
 
     if details:
-        faultDetail = unicode(details)
+        faultDetail = details
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
-- 
2.43.0


From 5cde4cae789e88b9cc9285b000a545bcc72e7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 058/114] fix: malformed RemoteObject requests failed all
 requests of a packet

---
 pyamf/remoting/amf3.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 1c23279..663577f 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -89,7 +89,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=request.messageId,
+        correlationId=getattr(request, 'messageId', None),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
@@ -213,9 +213,10 @@ class RequestProcessor(object):
         @return: The response to the request.
         @rtype: L{Response<pyamf.remoting.Response>}
         """
-        ro_request = amf_request.body[0]
+        ro_request = None
 
         try:
+            ro_request = amf_request.body[0]
             body = self._getBody(amf_request, ro_request, **kwargs)
         except (KeyboardInterrupt, SystemExit):
             raise
@@ -227,14 +228,17 @@ class RequestProcessor(object):
             elif self.logger:
                 self.logger.exception(
                     'Unexpected error while processing request %r',
-                    get_service_name(ro_request)
+                    getattr(ro_request, 'operation', ro_request)
                 )
 
             body = remoting.Response(fault, status=remoting.STATUS_ERROR)
 
         ro_response = body.body
 
-        dsid = ro_request.headers.get('DSId', None)
+        dsid = None
+
+        if isinstance(getattr(ro_request, 'headers', None), dict):
+            dsid = ro_request.headers.get('DSId', None)
 
         if not dsid or dsid == 'nil':
             dsid = generate_random_id()
-- 
2.43.0


From 8f5b07c60e80196a1988323b99e4e1d6858b3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 059/114] fix: RemoteObject requests were not authenticated

---
 pyamf/remoting/amf3.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 663577f..850ad9f 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -97,6 +97,13 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         rootCause=rootCause)
 
 
+class AuthenticationFailed(BaseServerError):
+    """
+    The authenticator did not accept the credentials of the request.
+    """
+    _amf_code = 'AuthenticationError'
+
+
 class RequestProcessor(object):
     def __init__(self, gateway):
         self.gateway = gateway
@@ -108,6 +115,26 @@ class RequestProcessor(object):
 
         return self.gateway.logger
 
+    def authenticateRequest(self, amf_request, service_request, **kwargs):
+        """
+        Authenticates the request against the service, with the credentials
+        in the headers of the packet.
+        """
+        username = password = None
+
+        if amf_request.envelope and 'Credentials' in amf_request.headers:
+            cred = amf_request.headers['Credentials']
+
+            username = cred['userid']
+            password = cred['password']
+
+        return self.gateway.authenticateRequest(
+            service_request,
+            username,
+            password,
+            **kwargs
+        )
+
     def buildErrorResponse(self, request, error=None):
         """
         Builds an error response.
@@ -188,6 +215,15 @@ class RequestProcessor(object):
             service_name
         )
 
+        authd = self.authenticateRequest(
+            amf_request,
+            service_request,
+            **kwargs
+        )
+
+        if not authd:
+            raise AuthenticationFailed('Authentication failed')
+
         # fire the preprocessor (if there is one)
         self.gateway.preprocessRequest(
             service_request,
-- 
2.43.0


From 2fb559c4c9ce97280e7075043be3a81aa81523e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 060/114] fix: the settings of a method that is found
 dynamically were ignored, and other attributes of its service evaluated

---
 pyamf/remoting/gateway/__init__.py | 36 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index b5e32aa..c375dcb 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -149,20 +149,30 @@ class ServiceWrapper(object):
 
         return callables
 
+    def _get_method(self, service_request):
+        """
+        The method of the service that is requested or C{None} if there is no
+        such method.
+        """
+        name = service_request.method
+
+        if name is None or name.startswith('_'):
+            return None
+
+        try:
+            return getattr(self.service, name)
+        except Exception:
+            return None
+
     def getAuthenticator(self, service_request=None):
         if service_request is None:
             return self.authenticator
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_authenticator'):
                 return self.service._pyamf_authenticator
 
-        if service_request.method not in methods:
-            return self.authenticator
-
-        method = methods[service_request.method]
+        method = self._get_method(service_request)
 
         if hasattr(method, '_pyamf_authenticator'):
             return method._pyamf_authenticator
@@ -173,18 +183,13 @@ class ServiceWrapper(object):
         if service_request is None:
             return self.expose_request
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_expose_request'):
                 return self.service._pyamf_expose_request
 
             return self.expose_request
 
-        if service_request.method not in methods:
-            return self.expose_request
-
-        method = methods[service_request.method]
+        method = self._get_method(service_request)
 
         if hasattr(method, '_pyamf_expose_request'):
             return method._pyamf_expose_request
@@ -195,16 +200,11 @@ class ServiceWrapper(object):
         if service_request is None:
             return self.preprocessor
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_preprocessor'):
                 return self.service._pyamf_preprocessor
 
-        if service_request.method not in methods:
-            return self.preprocessor
-
-        method = methods[service_request.method]
+        method = self._get_method(service_request)
 
         if hasattr(method, '_pyamf_preprocessor'):
             return method._pyamf_preprocessor
-- 
2.43.0


From cda1f6160a0bcdb3819b79d4aa2c037e0ac90dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 061/114] fix: a result that could not be encoded failed all
 requests of a packet

---
 pyamf/remoting/__init__.py         | 23 +++++++++++++++++++++--
 pyamf/remoting/gateway/__init__.py | 26 ++++++++++++++++++++++++++
 pyamf/remoting/gateway/django.py   |  3 ++-
 pyamf/remoting/gateway/wsgi.py     |  3 ++-
 4 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index da69871..d670811 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -735,7 +735,8 @@ def _decode(stream, strict, logger, timezone_offset, **kwargs):
     return msg
 
 
-def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
+def encode(msg, strict=False, logger=None, timezone_offset=None,
+           on_error=None, **kwargs):
     """
     Encodes and returns the L{msg<Envelope>} as an AMF stream.
 
@@ -752,6 +753,9 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
         this is required for legacy systems.
     @type timezone_offset: U{datetime.datetime.timedelta<http://
         docs.python.org/library/datetime.html#datetime.timedelta>}
+    @param on_error: Called with the message that could not be encoded while
+        the exception is handled, returns the message to send instead. Default
+        is C{None}, the exception is raised.
     @rtype: L{BufferedByteStream<pyamf.util.BufferedByteStream>}
     """
     stream = util.BufferedByteStream()
@@ -786,8 +790,23 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
 
     for name, message in msg.iteritems():
         encoder.context.clear()
+        start = stream.tell()
 
-        _write_body(name, message, stream, encoder, strict)
+        try:
+            _write_body(name, message, stream, encoder, strict)
+        except (KeyboardInterrupt, SystemExit):
+            raise
+        except:
+            if on_error is None:
+                raise
+
+            message = on_error(message)
+
+            stream.seek(start)
+            stream.truncate(start)
+            encoder.context.clear()
+
+            _write_body(name, message, stream, encoder, strict)
 
     stream.seek(0)
 
diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index c375dcb..28dc66a 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -427,6 +427,32 @@ class BaseGateway(object):
         """
         raise NotImplementedError
 
+    def buildEncodeErrorResponse(self, response):
+        """
+        Builds the response to send in the place of C{response}, which could
+        not be encoded. Called while the exception is being handled.
+        """
+        from pyamf.flex import messaging
+        from pyamf.remoting import amf0, amf3
+
+        if self.logger:
+            self.logger.exception('Error encoding AMF response')
+
+        cls, e, tb = sys.exc_info()
+        body = response.body
+
+        if isinstance(body, messaging.AbstractMessage):
+            fault = amf3.generate_error(None, cls, e, tb, self.debug)
+
+            fault.correlationId = getattr(body, 'correlationId', None)
+            fault.headers = body.headers
+            # what failed may be part of the exception
+            fault.rootCause = None
+        else:
+            fault = amf0.build_fault(cls, e, tb, self.debug)
+
+        return remoting.Response(fault, status=remoting.STATUS_ERROR)
+
     def mustExposeRequest(self, service_request):
         """
         Decides whether the underlying http request should be exposed as the
diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index bca4cb3..905ec13 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -179,7 +179,8 @@ class DjangoGateway(gateway.BaseGateway):
                 response,
                 strict=self.strict,
                 logger=self.logger,
-                timezone_offset=timezone_offset
+                timezone_offset=timezone_offset,
+                on_error=self.buildEncodeErrorResponse
             )
         except:
             if self.logger:
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index a3eaede..b316719 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -159,7 +159,8 @@ class WSGIGateway(gateway.BaseGateway):
             stream = remoting.encode(
                 response,
                 strict=self.strict,
-                timezone_offset=timezone_offset
+                timezone_offset=timezone_offset,
+                on_error=self.buildEncodeErrorResponse
             )
         except:
             if self.logger:
-- 
2.43.0


From b4ec20889671ef3a2e83cda061ca48097a3abc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 062/114] fix: exceptions that are not printable could not be
 encoded

---
 pyamf/__init__.py          |  2 +-
 pyamf/remoting/__init__.py | 17 -----------------
 pyamf/remoting/amf0.py     |  6 +++---
 pyamf/remoting/amf3.py     |  6 +++---
 pyamf/util/__init__.py     | 17 +++++++++++++++++
 5 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 3aa4d5d..07a5bb3 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -239,7 +239,7 @@ class ErrorAlias(ClassAlias):
     def getEncodableAttributes(self, obj, **kwargs):
         attrs = ClassAlias.getEncodableAttributes(self, obj, **kwargs)
 
-        attrs['message'] = unicode(obj)
+        attrs['message'] = util.to_text(obj)
         attrs['name'] = obj.__class__.__name__
 
         return attrs
diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index d670811..922fb0b 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -813,23 +813,6 @@ def encode(msg, strict=False, logger=None, timezone_offset=None,
     return stream
 
 
-def to_text(obj):
-    """
-    Describes C{obj} to the other side, whatever it is.
-    """
-    try:
-        return unicode(obj)
-    except UnicodeError:
-        pass
-    except Exception:
-        return u'<unprintable %s object>' % (type(obj).__name__,)
-
-    try:
-        return str(obj).decode('utf-8', 'replace')
-    except Exception:
-        return u'<unprintable %s object>' % (type(obj).__name__,)
-
-
 def get_exception_from_fault(fault):
     return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
 
diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index f96ccf3..50d1e06 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -10,7 +10,7 @@ AMF0 Remoting support.
 import traceback
 import sys
 
-from pyamf import remoting
+from pyamf import remoting, util
 from pyamf.remoting import gateway
 
 
@@ -183,11 +183,11 @@ def build_fault(cls, e, tb, include_traceback=False):
 
     if include_traceback:
         details = [
-            remoting.to_text(x) for x in traceback.format_exception(cls, e, tb)
+            util.to_text(x) for x in traceback.format_exception(cls, e, tb)
         ]
 
     return remoting.ErrorFault(
         code=code,
-        description=remoting.to_text(e),
+        description=util.to_text(e),
         details=details
     )
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 850ad9f..312420d 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -71,16 +71,16 @@ def generate_error(request, cls, e, tb, include_traceback=False):
 
         traceback.print_exception(cls, e, tb, file=buffer)
 
-        details = remoting.to_text(buffer.getvalue())
+        details = pyamf.util.to_text(buffer.getvalue())
 
     faultDetail = None
     faultString = None
 
     if hasattr(e, 'message'):
-        faultString = remoting.to_text(e.message)
+        faultString = pyamf.util.to_text(e.message)
     elif hasattr(e, 'args') and e.args:
         if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = remoting.to_text(e.args[0])
+            faultString = pyamf.util.to_text(e.args[0])
 
     if details:
         faultDetail = details
diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index a4fc2e6..93d9aee 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -107,6 +107,23 @@ def set_attrs(obj, attrs):
     [o(obj, k, v) for k, v in attrs.iteritems()]
 
 
+def to_text(obj):
+    """
+    Describes C{obj} to the other side of the stream, whatever it is.
+    """
+    try:
+        return unicode(obj)
+    except UnicodeError:
+        pass
+    except Exception:
+        return u'<unprintable %s object>' % (type(obj).__name__,)
+
+    try:
+        return str(obj).decode('utf-8', 'replace')
+    except Exception:
+        return u'<unprintable %s object>' % (type(obj).__name__,)
+
+
 def get_class_alias(klass):
     """
     Tries to find a suitable L{pyamf.ClassAlias} subclass for C{klass}.
-- 
2.43.0


From a0ba8b927bb2625910997183291d3f0ba9c21432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 063/114] fix: an object without its static attributes is a
 decode error

---
 pyamf/__init__.py | 7 +++++++
 pyamf/alias.py    | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 07a5bb3..16c0911 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -112,6 +112,13 @@ class DecodeError(BaseError):
     """
 
 
+class MissingAttributes(DecodeError, AttributeError):
+    """
+    Raised if an object in the data stream lacks the static attributes of its
+    class.
+    """
+
+
 class EOStream(BaseError):
     """
     Raised if the data stream has come to a natural end.
diff --git a/pyamf/alias.py b/pyamf/alias.py
index 9e715e0..e85cda6 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -514,7 +514,7 @@ class ClassAlias(object):
             missing_attrs = self.static_attrs_set.difference(props)
 
             if missing_attrs:
-                raise AttributeError(
+                raise pyamf.MissingAttributes(
                     'Static attributes %r expected when decoding %r' % (
                         missing_attrs, self.klass
                     )
-- 
2.43.0


From 823f6917c6f083e4fcb1a71113e608a5429640e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 064/114] fix: an unknown class in a strict packet is a decode
 error

---
 pyamf/remoting/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 922fb0b..f64fdf0 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -682,7 +682,8 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         raise pyamf.DecodeError('The message is not complete')
     except pyamf.DecodeError:
         raise
-    except (pyamf.BaseError, ValueError, OverflowError, SyntaxError), e:
+    except (pyamf.BaseError, pyamf.UnknownClassAlias, ValueError,
+            OverflowError, SyntaxError), e:
         # a value in the message is not valid, e.g. text or a reference
         raise pyamf.DecodeError('%s: %r' % (e.__class__.__name__, e.args))
 
-- 
2.43.0


From f94214970d894543e2708a21606ddbdc12e4c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 065/114] fix: debug information is not the answer to a request

---
 pyamf/remoting/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f64fdf0..0e23df3 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -185,9 +185,20 @@ class Envelope(object):
         value.envelope = self
 
     def __getitem__(self, name):
+        # debug information is sent along with the result, under its name
+        found = None
+
         for body in self.bodies:
-            if name == body[0]:
-                return body[1]
+            if name != body[0]:
+                continue
+
+            status = getattr(body[1], 'status', STATUS_OK)
+
+            if found is None or status != STATUS_DEBUG:
+                found = body[1]
+
+        if found is not None:
+            return found
 
         raise KeyError("'%r'" % (name,))
 
-- 
2.43.0


From 5c8c5e4845ede57091a55a7e77f43af716a02e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 066/114] fix: an error response is not the result of a request

---
 pyamf/remoting/client/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 283b955..da9ad07 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -160,6 +160,12 @@ class RequestWrapper(object):
         if isinstance(self.result, remoting.ErrorFault):
             self.result.raiseException()
 
+        if getattr(response, 'status', None) == remoting.STATUS_ERROR:
+            if hasattr(self.result, 'raiseException'):
+                self.result.raiseException()
+
+            raise remoting.RemotingError
+
     def _get_result(self):
         """
         Returns the result of the called remote request. If the request has not
-- 
2.43.0


From b9b9ba42d8303a0d57715061eba7507458d6d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 067/114] fix: removing an unknown request is a LookupError

---
 pyamf/remoting/client/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index da9ad07..6f6d7c3 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -334,6 +334,9 @@ class RemotingService(object):
         @raise LookupError: Request not found.
         """
         if isinstance(service, RequestWrapper):
+            if service not in self.requests:
+                raise LookupError("Request not found")
+
             if self.logger:
                 self.logger.debug(
                     'Removing request: %s',
-- 
2.43.0


From 41723c253533e69fd6deebea33f518b4089f438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 068/114] fix: unicode credentials need not be ASCII

---
 pyamf/remoting/client/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 6f6d7c3..dd5baeb 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -527,11 +527,14 @@ class RemotingService(object):
         """
         Sets authentication credentials for accessing the remote gateway.
         """
+        if not isinstance(username, unicode):
+            username = username.decode('utf-8')
+
+        if not isinstance(password, unicode):
+            password = password.decode('utf-8')
+
         self.addHeader(
             'Credentials',
-            dict(
-                userid=username.decode('utf-8'),
-                password=password.decode('utf-8')
-            ),
+            dict(userid=username, password=password),
             True
         )
-- 
2.43.0


From fa83a0ac06d3e05c4a3b1d830958a2b36c468d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 069/114] fix: a file that is not a shared object was left open

---
 pyamf/sol.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyamf/sol.py b/pyamf/sol.py
index 6d0c788..4866301 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -150,15 +150,17 @@ def load(name_or_file):
     elif not hasattr(f, 'read'):
         raise ValueError('Readable stream expected')
 
-    name, values = decode(f.read())
+    try:
+        name, values = decode(f.read())
+    finally:
+        if opened is True:
+            f.close()
+
     s = SOL(name)
 
     for n, v in values.iteritems():
         s[n] = v
 
-    if opened is True:
-        f.close()
-
     return s
 
 
-- 
2.43.0


From 00383b4e9d43c3f67333d0e4cecadc07ae093c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 070/114] fix: a shared object that cannot be encoded destroyed
 the saved one

---
 pyamf/sol.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyamf/sol.py b/pyamf/sol.py
index 4866301..2c2fa9a 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -174,16 +174,21 @@ def save(sol, name_or_file, encoding=pyamf.AMF0):
     f = name_or_file
     opened = False
 
+    if not isinstance(name_or_file, basestring) and not hasattr(f, 'write'):
+        raise ValueError('Writable stream expected')
+
+    # the file is only touched once there is something to write
+    data = encode(sol.name, sol, encoding=encoding).getvalue()
+
     if isinstance(name_or_file, basestring):
         f = open(name_or_file, 'wb+')
         opened = True
-    elif not hasattr(f, 'write'):
-        raise ValueError('Writable stream expected')
 
-    f.write(encode(sol.name, sol, encoding=encoding).getvalue())
-
-    if opened:
-        f.close()
+    try:
+        f.write(data)
+    finally:
+        if opened:
+            f.close()
 
 
 class SOL(dict):
-- 
2.43.0


From 880a0da97a3201a9540004ba2edb93b800ed0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 071/114] fix: ids of small messages need not be UUIDs

---
 pyamf/flex/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 67b3093..592b913 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -200,7 +200,7 @@ class AbstractMessage(object):
             attr = self.SMALL_UUIDS[flag]
             value = getattr(self, attr)
 
-            if not value:
+            if not isinstance(value, uuid.UUID):
                 continue
 
             byte |= flag
-- 
2.43.0


From f375fb1aa15cd86b23e7cdbac81ecb4ef6767f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 072/114] fix: empty and zero fields were missing in small
 messages

---
 pyamf/flex/messaging.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 592b913..ca0aaec 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -143,7 +143,7 @@ class AbstractMessage(object):
         """
         obj = getattr(self, attr)
 
-        if not obj:
+        if obj is None:
             return obj
 
         if attr in ['timestamp', 'timeToLive']:
@@ -187,9 +187,16 @@ class AbstractMessage(object):
         byte = 0
 
         for flag in self.SMALL_ATTRIBUTE_FLAGS:
-            value = self.encodeSmallAttribute(self.SMALL_ATTRIBUTES[flag])
+            attr = self.SMALL_ATTRIBUTES[flag]
+            value = self.encodeSmallAttribute(attr)
 
-            if value:
+            # what is left out is read as the default
+            if attr == 'headers':
+                default = value == {}
+            else:
+                default = value is None
+
+            if not default:
                 byte |= flag
                 flag_attrs.append(value)
 
@@ -422,7 +429,7 @@ class CommandMessage(AsyncMessage):
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
-        if self.operation:
+        if self.operation is not None:
             output.writeUnsignedByte(0x01)
             output.writeObject(self.operation)
         else:
-- 
2.43.0


From ec3905f2ebdaff042810950e573aacfa8e35801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 073/114] fix: timestamps of small messages may be numbers

---
 pyamf/flex/messaging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index ca0aaec..8e0bf5d 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -147,6 +147,10 @@ class AbstractMessage(object):
             return obj
 
         if attr in ['timestamp', 'timeToLive']:
+            if isinstance(obj, (int, long, float)):
+                # already in milliseconds
+                return obj
+
             return pyamf.util.get_timestamp(obj) * 1000.0
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
-- 
2.43.0


From 826126c140c96a154b98b2e93eb648cffbce852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 074/114] fix: small messages are AMF3 wherever they are
 written

---
 pyamf/flex/messaging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 8e0bf5d..86305e1 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -530,6 +530,7 @@ class AcknowledgeMessageExt(AcknowledgeMessage):
 
     class __amf__:
         external = True
+        amf3 = True
 
 
 class CommandMessageExt(CommandMessage):
@@ -541,6 +542,7 @@ class CommandMessageExt(CommandMessage):
 
     class __amf__:
         external = True
+        amf3 = True
 
 
 class AsyncMessageExt(AsyncMessage):
@@ -552,6 +554,7 @@ class AsyncMessageExt(AsyncMessage):
 
     class __amf__:
         external = True
+        amf3 = True
 
 
 def read_flags(input):
-- 
2.43.0


From c6d29e40398f612e9a3396d8ee85245a188f1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 075/114] fix: proxied attributes were wrapped twice with
 proxies enabled

---
 pyamf/amf3.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 4c6352e..db24ef2 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -626,6 +626,7 @@ class Context(codec.Context):
 
         self.strings.clear()
         self.proxied_objects = {}
+        self.unproxied_objects = {}
         self.classes = {}
         self.class_ref = {}
 
@@ -737,11 +738,15 @@ class Context(codec.Context):
         @see: L{pyamf.flex.unproxy_object}
         @since: 0.6
         """
-        obj = self.proxied_objects.get(id(proxy))
+        obj = self.unproxied_objects.get(id(proxy))
 
         if obj is None:
             from pyamf import flex
 
+            if id(proxy) in self.proxied_objects:
+                # this is the 'raw' object
+                return proxy
+
             obj = flex.unproxy_object(proxy)
 
             self.addProxyObject(obj, proxy)
@@ -756,7 +761,7 @@ class Context(codec.Context):
         @since: 0.6
         """
         self.proxied_objects[id(obj)] = proxied
-        self.proxied_objects[id(proxied)] = obj
+        self.unproxied_objects[id(proxied)] = obj
 
     def getProxyForObject(self, obj):
         """
@@ -771,6 +776,10 @@ class Context(codec.Context):
         if proxied is None:
             from pyamf import flex
 
+            if id(obj) in self.unproxied_objects:
+                # this is the proxy
+                return obj
+
             proxied = flex.proxy_object(obj)
 
             self.addProxyObject(obj, proxied)
-- 
2.43.0


From c0b5d9e25090a374455a45ba831fcc29f7c3eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 076/114] fix: sequences of other classes lost their elements
 as proxies

---
 pyamf/amf3.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index db24ef2..fac6c21 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -786,6 +786,21 @@ class Context(codec.Context):
 
         return proxied
 
+    def getProxyForSequence(self, obj):
+        """
+        Like L{getProxyForObject}, for a sequence of any class.
+        """
+        proxied = self.proxied_objects.get(id(obj))
+
+        if proxied is None:
+            from pyamf import flex
+
+            proxied = flex.ArrayCollection(obj)
+
+            self.addProxyObject(obj, proxied)
+
+        return proxied
+
 
 class Decoder(codec.Decoder):
     """
@@ -1358,6 +1373,10 @@ class Encoder(codec.Encoder):
         @param n: The C{list} data to be encoded to the AMF3 data stream.
         """
         if self.use_proxies and not is_proxy:
+            if type(n) not in (list, tuple):
+                # a sequence of another class is an array all the same
+                self.context.getProxyForSequence(n)
+
             self.writeProxy(n)
 
             return
-- 
2.43.0


From 6a53e4fe4dc7eabeb3a3ca18902b2b395e00af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 077/114] fix: proxies that contain themselves were cut short

---
 pyamf/amf3.py | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index fac6c21..ac1a1a5 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -627,6 +627,7 @@ class Context(codec.Context):
         self.strings.clear()
         self.proxied_objects = {}
         self.unproxied_objects = {}
+        self.open_proxies = {}
         self.classes = {}
         self.class_ref = {}
 
@@ -1080,6 +1081,9 @@ class Decoder(codec.Decoder):
             obj = self._getReferenced(self.context.getObject, ref >> 1)
 
             if self.use_proxies is True:
+                if id(obj) in self.context.open_proxies:
+                    return self._readOpenProxy(obj, ref >> 1)
+
                 obj = self.readProxy(obj)
 
             return obj
@@ -1104,12 +1108,25 @@ class Decoder(codec.Decoder):
                     'Unable to read externalised data into %r' % (
                         alias.klass,))
 
-            readamf(DataInput(self))
+            if self.use_proxies is not True:
+                readamf(DataInput(self))
 
-            if self.use_proxies is True:
-                obj = self.readProxy(obj)
+                return obj
 
-            return obj
+            self.context.open_proxies[id(obj)] = obj
+
+            try:
+                readamf(DataInput(self))
+            finally:
+                del self.context.open_proxies[id(obj)]
+
+            raw = self.readProxy(obj)
+
+            if type(raw) is list and raw is not obj:
+                # it may have been referenced by one of its own elements
+                raw[:] = obj
+
+            return raw
         elif class_def.encoding == ObjectEncoding.DYNAMIC:
             self._readStatic(class_def, obj_attrs)
             self._readDynamic(class_def, obj_attrs)
@@ -1125,6 +1142,21 @@ class Decoder(codec.Decoder):
 
         return obj
 
+    def _readOpenProxy(self, proxy, ref):
+        """
+        Returns what C{proxy} stands for, while that is still being read.
+        """
+        from pyamf import flex
+
+        if isinstance(proxy, flex.ObjectProxy):
+            # the wrapped object is the one that follows its proxy
+            obj = self.context.getObject(ref + 1)
+
+            if obj is not None:
+                self.context.addProxyObject(obj, proxy)
+
+        return self.readProxy(proxy)
+
     def readXML(self):
         """
         Reads an xml object from the stream.
-- 
2.43.0


From 2b1116c67473b3f640d5238fcee4ceda5a5c72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 078/114] fix: data messages have no small form

---
 pyamf/flex/data.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyamf/flex/data.py b/pyamf/flex/data.py
index 7ecb61f..ff1007e 100644
--- a/pyamf/flex/data.py
+++ b/pyamf/flex/data.py
@@ -53,6 +53,12 @@ class DataMessage(AsyncMessage):
         #: this message.
         self.operation = None
 
+    def getSmallMessage(self):
+        """
+        There is no small form of this message.
+        """
+        raise NotImplementedError
+
 
 class SequencedMessage(AcknowledgeMessage):
     """
@@ -81,6 +87,12 @@ class SequencedMessage(AcknowledgeMessage):
         #:
         self.dataMessage = None
 
+    def getSmallMessage(self):
+        """
+        There is no small form of this message.
+        """
+        raise NotImplementedError
+
 
 class PagedMessage(SequencedMessage):
     """
-- 
2.43.0


From 1637039f9dbdf31964338c076be4fe661785acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 079/114] fix: a collection whose source is no list raised a
 TypeError

---
 pyamf/flex/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyamf/flex/__init__.py b/pyamf/flex/__init__.py
index e934be0..c6a78d5 100644
--- a/pyamf/flex/__init__.py
+++ b/pyamf/flex/__init__.py
@@ -56,11 +56,11 @@ class ArrayCollection(list):
 
         if hasattr(data, 'source'):
             data = data.source
-        else:
-            if not hasattr(data, '__iter__'):
-                raise pyamf.DecodeError(
-                    'Unable to read a list when decoding ArrayCollection'
-                )
+
+        if not hasattr(data, '__iter__'):
+            raise pyamf.DecodeError(
+                'Unable to read a list when decoding ArrayCollection'
+            )
 
         self.extend(data)
 
-- 
2.43.0


From e319dde74ba5d0c672b86d9e40e6f17d70ca6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 080/114] fix: AMF0 XML documents with other than ASCII text
 were refused

---
 pyamf/amf0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 08dfd89..5095f90 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -409,7 +409,8 @@ class Decoder(codec.Decoder):
         """
         Read XML.
         """
-        data = self.readLongString()
+        # the parser decodes the text itself
+        data = self.stream.read(self.stream.read_ulong())
         root = xml.fromstring(
             data,
             forbid_dtd=self.context.forbid_dtd,
-- 
2.43.0


From 7829677c96aca90de76ce565845ba38a56c7f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 081/114] fix: hooks of a module imported again, or after a
 failure, did not run

---
 pyamf/util/imports.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 99b8471..8de7546 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -39,7 +39,7 @@ class ModuleFinder(object):
 
     @ivar post_load_hooks: C{dict} of C{full module path -> callable} to be
         executed when the module is imported.
-    @ivar loaded_modules: C{list} of modules that this finder has seen. Used
+    @ivar loaded_modules: C{list} of modules that this finder is loading. Used
         to stop recursive imports in L{load_module}
     @see: L{when_imported}
     @since: 0.5
@@ -84,10 +84,10 @@ class ModuleFinder(object):
 
             mod = sys.modules[name]
             self._run_hooks(name, mod)
-        except:
-            self.loaded_modules.pop()
-
-            raise
+        finally:
+            # nested imports may have come and gone, and the module may be
+            # imported again later
+            self.loaded_modules.remove(name)
 
         return mod
 
-- 
2.43.0


From e60b4325d561caa985f321a68ef20ba47c3f1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 082/114] fix: hooks were called with None for modules that can
 not be imported

---
 pyamf/util/imports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 8de7546..61bbe6c 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -95,7 +95,8 @@ class ModuleFinder(object):
         """
         @see: L{when_imported}
         """
-        if name in sys.modules:
+        # C{None} marks a name that can not be imported
+        if sys.modules.get(name) is not None:
             for hook in hooks:
                 hook(sys.modules[name])
 
-- 
2.43.0


From 724b25e807b91237661b35e6c7f895f53ab91d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 083/114] fix: aliases used first by several threads at once
 were compiled wrongly

---
 pyamf/alias.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index e85cda6..c55beb9 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -8,10 +8,15 @@ Class alias base functionality.
 """
 
 import inspect
+import threading
 
 import pyamf
 from pyamf import python, util
 
+#: Guards the compilation of aliases. One for all, because an alias compiles
+#: those of its base classes.
+_compile_lock = threading.RLock()
+
 
 class UnknownClassAlias(Exception):
     """
@@ -98,6 +103,12 @@ class ClassAlias(object):
         if self._compiled:
             return
 
+        with _compile_lock:
+            # another thread may have been faster
+            if not self._compiled:
+                self._compile()
+
+    def _compile(self):
         self.decodable_properties = set()
         self.encodable_properties = set()
         self.inherited_dynamic = None
-- 
2.43.0


From 491e30d4402787bab91b9bcfb66a33ffd5d9316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 084/114] fix: XML support used first by several threads at
 once failed

---
 pyamf/xml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/xml.py b/pyamf/xml.py
index 3fef97f..348413f 100644
--- a/pyamf/xml.py
+++ b/pyamf/xml.py
@@ -123,7 +123,9 @@ def _bootstrap():
     global types, modules, ET
 
     if types is None:
-        types, modules = find_libs()
+        # other threads look at types only
+        t, modules = find_libs()
+        types = t
 
     if ET is None:
         try:
-- 
2.43.0


From cbb2ebad54de7feef516c7b9348429bc3c043ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 085/114] fix: UUIDs that look like compressed data did not
 survive small messages

---
 pyamf/flex/messaging.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 86305e1..136d01d 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -215,7 +215,7 @@ class AbstractMessage(object):
                 continue
 
             byte |= flag
-            uuid_attrs.append(amf3.ByteArray(value.bytes))
+            uuid_attrs.append(encode_uuid(value))
 
         del attr
 
@@ -294,7 +294,7 @@ class AsyncMessage(AbstractMessage):
             output.writeObject(self.correlationId)
         else:
             output.writeUnsignedByte(0x02)
-            output.writeObject(pyamf.amf3.ByteArray(self.correlationId.bytes))
+            output.writeObject(encode_uuid(self.correlationId))
 
     def getSmallMessage(self):
         """
@@ -578,12 +578,28 @@ def read_flags(input):
     return flags
 
 
+def encode_uuid(value):
+    """
+    Encode a C{uuid.UUID} instance as the contents of a L{ByteArray}.
+
+    @since: 0.8
+    """
+    obj = amf3.ByteArray(value.bytes)
+    # the bytes may look like a compressed ByteArray, they never are
+    obj.compressed = False
+
+    return obj
+
+
 def decode_uuid(obj):
     """
     Decode a L{ByteArray} contents to a C{uuid.UUID} instance.
 
     @since: 0.5
     """
+    if isinstance(obj, amf3.ByteArray):
+        obj = obj.getvalue()
+
     return uuid.UUID(bytes=str(obj))
 
 
-- 
2.43.0


From ca8c7232efbe11d3d9a2a96aec22a6a190a5ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 086/114] fix: encode and decode whole milliseconds of all
 dates exactly

---
 pyamf/amf0.py           |  8 ++++----
 pyamf/amf3.py           |  5 ++---
 pyamf/flex/messaging.py |  4 ++--
 pyamf/util/__init__.py  | 39 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 5095f90..3703c2c 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -382,11 +382,11 @@ class Decoder(codec.Decoder):
         Endian number indicating the indicated time's timezone in
         minutes.
         """
-        ms = self.stream.read_double() / 1000.0
+        ms = self.stream.read_double()
         self.stream.read_short()  # tz
 
         # Timezones are ignored
-        d = util.get_datetime(ms)
+        d = util.get_datetime_from_milliseconds(ms)
 
         if self.timezone_offset:
             d = d + self.timezone_offset
@@ -680,11 +680,11 @@ class Encoder(codec.Encoder):
         if self.timezone_offset is not None:
             d -= self.timezone_offset
 
-        secs = util.get_timestamp(d)
+        ms = util.get_milliseconds(d)
         tz = 0
 
         self.writeType(TYPE_DATE)
-        self.stream.write_double(secs * 1000.0)
+        self.stream.write_double(ms)
         self.stream.write_short(tz)
 
     def writeXML(self, e):
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index ac1a1a5..cf4db04 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -968,7 +968,7 @@ class Decoder(codec.Decoder):
             return self._getReferenced(self.context.getObject, ref >> 1)
 
         ms = self.stream.read_double()
-        result = util.get_datetime(ms / 1000.0)
+        result = util.get_datetime_from_milliseconds(ms)
 
         if self.timezone_offset is not None:
             result += self.timezone_offset
@@ -1393,8 +1393,7 @@ class Encoder(codec.Encoder):
         if self.timezone_offset is not None:
             n -= self.timezone_offset
 
-        ms = util.get_timestamp(n)
-        self.stream.write_double(ms * 1000.0)
+        self.stream.write_double(util.get_milliseconds(n))
 
     def writeList(self, n, is_proxy=False):
         """
diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 136d01d..16d8eac 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -133,7 +133,7 @@ class AbstractMessage(object):
         obj = input.readObject()
 
         if attr in ['timestamp', 'timeToLive']:
-            return pyamf.util.get_datetime(obj / 1000.0)
+            return pyamf.util.get_datetime_from_milliseconds(obj)
 
         return obj
 
@@ -151,7 +151,7 @@ class AbstractMessage(object):
                 # already in milliseconds
                 return obj
 
-            return pyamf.util.get_timestamp(obj) * 1000.0
+            return pyamf.util.get_milliseconds(obj)
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
                 return None
diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 93d9aee..5a14b51 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -24,6 +24,8 @@ __all__ = [
     'BufferedByteStream',
     'get_timestamp',
     'get_datetime',
+    'get_milliseconds',
+    'get_datetime_from_milliseconds',
     'get_properties',
     'set_attrs',
     'get_class_alias',
@@ -37,6 +39,10 @@ __all__ = [
 #: C{datetime.datetime.utcfromtimestamp(-31536000.0)} is broken.
 negative_timestamp_broken = False
 
+#: The largest float that is the number of milliseconds of a date which
+#: C{datetime.datetime} supports, just before the year 10000.
+MAX_MILLISECONDS = 253402300799999.96875
+
 
 def get_timestamp(d):
     """
@@ -76,6 +82,39 @@ def get_datetime(secs):
     return datetime.datetime.utcfromtimestamp(secs)
 
 
+def get_milliseconds(d):
+    """
+    Returns the number of milliseconds between the epoch and a date, which is
+    how AMF represents dates. Unlike the product of L{get_timestamp} and 1000,
+    this is exact for all whole milliseconds.
+
+    @type d: C{datetime.datetime} or C{datetime.date}
+    @return: Milliseconds since 1970, in UTC.
+    @rtype: C{float}
+    """
+    if not isinstance(d, datetime.datetime):
+        d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
+
+    ms = calendar.timegm(d.utctimetuple()) * 1000.0 + d.microsecond / 1000.0
+
+    # the last microseconds of the year 9999 are not to be rounded up
+    return min(ms, MAX_MILLISECONDS)
+
+
+def get_datetime_from_milliseconds(ms):
+    """
+    The inverse of L{get_milliseconds}.
+
+    @type ms: C{float}
+    @param ms: Milliseconds since 1970, in UTC.
+    @rtype: C{datetime.datetime}
+    """
+    secs, ms = divmod(ms, 1000.0)
+
+    return datetime.datetime(1970, 1, 1) + datetime.timedelta(
+        seconds=secs, microseconds=round(ms * 1000.0))
+
+
 def get_properties(obj):
     """
     Returns a list of properties for L{obj}
-- 
2.43.0


From a2fb9686b9d88f87fc3408b2ebf372b95cd508e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 087/114] fix: apply the whole timezone offset to dates without
 a time

---
 pyamf/amf0.py | 4 ++++
 pyamf/amf3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 3703c2c..f96aea0 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -678,6 +678,10 @@ class Encoder(codec.Encoder):
         self.context.addObject(d)
 
         if self.timezone_offset is not None:
+            if not isinstance(d, datetime.datetime):
+                # a date is unable to have a part of a day subtracted
+                d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
+
             d -= self.timezone_offset
 
         ms = util.get_milliseconds(d)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index cf4db04..656d1d8 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1391,6 +1391,10 @@ class Encoder(codec.Encoder):
         self.stream.write_uchar(REFERENCE_BIT)
 
         if self.timezone_offset is not None:
+            if not isinstance(n, datetime.datetime):
+                # a date is unable to have a part of a day subtracted
+                n = datetime.datetime.combine(n, datetime.time(0, 0, 0, 0))
+
             n -= self.timezone_offset
 
         self.stream.write_double(util.get_milliseconds(n))
-- 
2.43.0


From 8e39df96b1781bdc1855a4eae302a79d3bd58dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 088/114] fix: accept a timezone_offset in seconds, as
 documented

---
 pyamf/codec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 6732cba..46c5711 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -346,6 +346,10 @@ class _Codec(object):
             forbid_entities=forbid_entities
         )
         self.strict = strict
+
+        if isinstance(timezone_offset, python.int_types):
+            timezone_offset = datetime.timedelta(seconds=timezone_offset)
+
         self.timezone_offset = timezone_offset
 
         self._func_cache = {}
-- 
2.43.0


From 74170aaecdaf184469fb631a42b20deb24215c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 089/114] fix: encode instances of subclasses of date and
 datetime as dates

---
 pyamf/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 46c5711..65f6326 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -642,6 +642,8 @@ class Encoder(_Codec):
 
         if isinstance(data, (list, tuple)):
             return self.writeSequence
+        elif isinstance(data, (datetime.date, datetime.time)):
+            return self.writeDate
 
         # now try some types that won't encode
         if isinstance(data, python.class_types):
-- 
2.43.0


From 6f73dacbe4fbe02145c46e2019fda8ea67b4bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 090/114] fix: share the extra data of nested AMF3 elements
 with the post decode processors

---
 pyamf/amf0.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index f96aea0..afad560 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -152,6 +152,8 @@ class Context(codec.Context):
         decoder = self.extra.get('amf3_decoder', None)
 
         if decoder:
+            decoder.context.extra = self.extra
+
             return decoder
 
         decoder = pyamf.get_decoder(
@@ -163,6 +165,8 @@ class Context(codec.Context):
             forbid_entities=self.forbid_entities
         )
         decoder.nested = True
+        # what is decoded is finalised by the outer decoder, with its context
+        decoder.context.extra = self.extra
 
         self.extra['amf3_decoder'] = decoder
 
-- 
2.43.0


From 2b2845f15aec3337c7fb4cb83fd46fe45388c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 091/114] fix: raise RemotingError for fault codes which are
 not hashable

---
 pyamf/remoting/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 0e23df3..29d9c03 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -826,7 +826,11 @@ def encode(msg, strict=False, logger=None, timezone_offset=None,
 
 
 def get_exception_from_fault(fault):
-    return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
+    try:
+        return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
+    except TypeError:
+        # the code is not hashable, so it can't be registered
+        return RemotingError
 
 
 pyamf.register_class(ErrorFault)
-- 
2.43.0


From c4bee9412bdb313c70abd617f383a6908202f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 092/114] fix: remove all the codes of an error class

---
 pyamf/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 16c0911..6bf1267 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -729,16 +729,18 @@ def remove_error_class(klass):
     if isinstance(klass, python.str_types):
         if klass not in ERROR_CLASS_MAP:
             raise ValueError('Code %s is not registered' % (klass,))
+
+        codes = [klass]
     elif isinstance(klass, python.class_types):
-        classes = ERROR_CLASS_MAP.values()
-        if klass not in classes:
-            raise ValueError('Class %s is not registered' % (klass,))
+        codes = [k for k, v in ERROR_CLASS_MAP.items() if v is klass]
 
-        klass = ERROR_CLASS_MAP.keys()[classes.index(klass)]
+        if not codes:
+            raise ValueError('Class %s is not registered' % (klass,))
     else:
         raise TypeError("Invalid type, expected class or string")
 
-    del ERROR_CLASS_MAP[klass]
+    for code in codes:
+        del ERROR_CLASS_MAP[code]
 
 
 def register_alias_type(klass, *args):
-- 
2.43.0


From fa8d8647c6dc0d2280a971a556ba10bbca7382b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 093/114] fix: report the text of exceptions with several
 arguments over AMF3

---
 pyamf/remoting/amf3.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 312420d..9fc88ed 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -76,11 +76,10 @@ def generate_error(request, cls, e, tb, include_traceback=False):
     faultDetail = None
     faultString = None
 
-    if hasattr(e, 'message'):
+    if getattr(e, 'message', None):
         faultString = pyamf.util.to_text(e.message)
     elif hasattr(e, 'args') and e.args:
-        if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = pyamf.util.to_text(e.args[0])
+        faultString = pyamf.util.to_text(e)
 
     if details:
         faultDetail = details
-- 
2.43.0


From 5e724a13c236975de157ab65c516b72df69dd5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 094/114] fix: encode record sets whose id or service is not
 ASCII

---
 pyamf/amf0.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index afad560..87bdb03 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -751,6 +751,12 @@ class RecordSet(object):
         self.service = service
         self.id = id
 
+    def _to_str(self, value):
+        if isinstance(value, basestring):
+            return value
+
+        return str(value)
+
     def _get_server_info(self):
         ret = pyamf.ASObject(
             totalCount=len(self.items),
@@ -761,10 +767,10 @@ class RecordSet(object):
         )
 
         if self.service is not None:
-            ret.update({'serviceName': str(self.service['name'])})
+            ret.update({'serviceName': self._to_str(self.service['name'])})
 
         if self.id is not None:
-            ret.update({'id': str(self.id)})
+            ret.update({'id': self._to_str(self.id)})
 
         return ret
 
-- 
2.43.0


From c94d189b685913ffeef39de38e5899ff8a61371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 095/114] fix: report unknown methods whose name is not ASCII
 as such

---
 pyamf/remoting/gateway/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index 28dc66a..fe57327 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -91,7 +91,12 @@ class ServiceWrapper(object):
             service = self.service
 
         if method is not None:
-            method = str(method)
+            try:
+                method = str(method)
+            except UnicodeError:
+                # no attribute has a name that is not ASCII
+                raise UnknownServiceMethodError(
+                    "Unknown method %r" % (method,))
 
             if method.startswith('_'):
                 raise InvalidServiceMethodError(
-- 
2.43.0


From a39de0c05651de1766df1720cd9d9f673ecab748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 096/114] fix: raise KeyError for unknown headers whose name is
 not ASCII

---
 pyamf/remoting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 29d9c03..1c9bc56 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -93,7 +93,7 @@ class HeaderCollection(dict):
         @raise KeyError: Unknown header found.
         """
         if idx not in self:
-            raise KeyError("Unknown header %s" % str(idx))
+            raise KeyError("Unknown header %s" % (idx,))
 
         return idx in self.required
 
@@ -102,7 +102,7 @@ class HeaderCollection(dict):
         @raise KeyError: Unknown header found.
         """
         if idx not in self:
-            raise KeyError("Unknown header %s" % str(idx))
+            raise KeyError("Unknown header %s" % (idx,))
 
         if not value:
             if idx in self.required:
-- 
2.43.0


From 4ee80fc5b0523d46d437a83fb1491af592cc64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 097/114] fix: decode Django models of which not all fields are
 sent

---
 pyamf/adapters/_django_db_models_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 4102e1f..60e47a5 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -218,7 +218,7 @@ class DjangoClassAlias(pyamf.ClassAlias):
 
         if self.decodable_properties:
             for n in self.decodable_properties:
-                if n in self.relations:
+                if n in self.relations or n not in attrs:
                     continue
 
                 try:
-- 
2.43.0


From 1bcd029c21fa5498667e137e2c38be24346b3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 098/114] fix: encode Django models with many to many fields
 that are not saved

---
 pyamf/adapters/_django_db_models_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 60e47a5..5edc68c 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -202,7 +202,11 @@ class DjangoClassAlias(pyamf.ClassAlias):
                 attrs[name] = getattr(obj, name)
 
             if isinstance(relation, models.ManyToManyField):
-                attrs[name] = [x for x in getattr(obj, name).all()]
+                if obj.pk is None:
+                    # there are no relations until the object is saved
+                    attrs[name] = []
+                else:
+                    attrs[name] = [x for x in getattr(obj, name).all()]
             else:
                 attrs.pop(relation.attname, None)
 
-- 
2.43.0


From ab6de37cf528ef806c2160211f1d3e99e8cb2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 099/114] fix: Twisted gateway answers the other requests when
 one can not be encoded

---
 pyamf/remoting/gateway/twisted.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 9771a64..609134c 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -340,7 +340,8 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
             amf_response,
             strict=self.strict,
             logger=self.logger,
-            timezone_offset=timezone_offset
+            timezone_offset=timezone_offset,
+            on_error=self.buildEncodeErrorResponse
         )
 
         d.addCallback(cb).addErrback(eb)
-- 
2.43.0


From f4afd6c32f2bcc6726b670f23d9e770dec11fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:06 +0000
Subject: [PATCH 100/114] fix: Twisted gateway answers all requests, in order,
 also when they share an id

---
 pyamf/remoting/gateway/twisted.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 609134c..a74a756 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -298,7 +298,12 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
         def cb(amf_request):
             x = self.getResponse(request, amf_request)
 
-            x.addCallback(self.sendResponse, request)
+            x.addCallback(send_cb)
+
+        def send_cb(amf_response):
+            # otherwise the request failed and is already finished
+            if amf_response is not None:
+                self.sendResponse(amf_response, request)
 
         # Process the request
         d.addCallback(cb).addErrback(handleDecodeError)
@@ -370,9 +375,6 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
         response = remoting.Envelope(amf_request.amfVersion)
         dl = []
 
-        def cb(body, name):
-            response[name] = body
-
         for name, message in amf_request:
             processor = self.getProcessor(message)
 
@@ -381,9 +383,15 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
             d = defer.maybeDeferred(
                 processor, message, http_request=http_request)
 
-            dl.append(d.addCallback(cb, name))
+            dl.append(d)
+
+        def cb(result):
+            for (name, message), (success, value) in zip(amf_request, result):
+                if not success:
+                    value.raiseException()
+
+                response.append(name, value)
 
-        def cb2(result):
             return response
 
         def eb(failure):
@@ -406,7 +414,7 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
 
         d = defer.DeferredList(dl)
 
-        return d.addCallback(cb2).addErrback(eb)
+        return d.addCallback(cb).addErrback(eb)
 
     def authenticateRequest(self, service_request, username, password,
                             **kwargs):
-- 
2.43.0


From a2367b5b600a5a95ff1ce4af2e66bf1422110424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 101/114] fix: Twisted gateway authenticates messages over AMF3
 and answers those that fail

---
 pyamf/remoting/amf3.py            |  11 +++-
 pyamf/remoting/gateway/twisted.py | 100 +++++++++++++-----------------
 2 files changed, 53 insertions(+), 58 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 9fc88ed..a21ad31 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -268,7 +268,14 @@ class RequestProcessor(object):
 
             body = remoting.Response(fault, status=remoting.STATUS_ERROR)
 
-        ro_response = body.body
+        return self.setChannelId(body, ro_request)
+
+    def setChannelId(self, response, ro_request):
+        """
+        Sets the id of the channel that the C{response} to a message belongs
+        to.
+        """
+        ro_response = response.body
 
         dsid = None
 
@@ -280,7 +287,7 @@ class RequestProcessor(object):
 
         ro_response.headers.setdefault('DSId', dsid)
 
-        return body
+        return response
 
 
 def get_service_name(ro_request):
diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index a74a756..1b94dec 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -127,58 +127,42 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
     def _processRemotingMessage(self, amf_request, ro_request, **kwargs):
         ro_response = amf3.generate_acknowledgement(ro_request)
 
-        try:
-            service_name = ro_request.operation
-
-            if hasattr(ro_request, 'destination') and ro_request.destination:
-                service_name = '%s.%s' % (ro_request.destination, service_name)
-
-            service_request = self.gateway.getServiceRequest(amf_request,
-                                                             service_name)
-        except gateway.UnknownServiceError:
-            return defer.succeed(remoting.Response(
-                self.buildErrorResponse(ro_request),
-                status=remoting.STATUS_ERROR))
-
-        deferred_response = defer.Deferred()
+        service_request = self.gateway.getServiceRequest(
+            amf_request,
+            amf3.get_service_name(ro_request)
+        )
 
-        def eb(failure):
-            errMesg = "%s: %s" % (failure.type, failure.getErrorMessage())
+        def auth_cb(result):
+            if result is not True:
+                raise amf3.AuthenticationFailed('Authentication failed')
 
-            if self.gateway.logger:
-                self.gateway.logger.error(errMesg)
-                self.gateway.logger.error(failure.getTraceback())
+            return self.gateway.preprocessRequest(
+                service_request,
+                *ro_request.body,
+                **kwargs
+            )
 
-            ro_response = self.buildErrorResponse(ro_request, (failure.type,
-                                                  failure.value, failure.tb))
-            deferred_response.callback(
-                remoting.Response(ro_response, status=remoting.STATUS_ERROR)
+        def preprocess_cb(result):
+            return self.gateway.callServiceRequest(
+                service_request,
+                *ro_request.body,
+                **kwargs
             )
 
         def response_cb(result):
             ro_response.body = result
-            res = remoting.Response(ro_response)
 
-            deferred_response.callback(res)
+            return remoting.Response(ro_response)
 
-        def process_cb(result):
-            d = defer.maybeDeferred(
-                self.gateway.callServiceRequest,
-                service_request,
-                *ro_request.body,
-                **kwargs
-            )
-            d.addCallback(response_cb).addErrback(eb)
+        # we have a valid service, now attempt authentication
+        d = defer.maybeDeferred(self.authenticateRequest, amf_request,
+                                service_request, **kwargs)
 
-        d = defer.maybeDeferred(
-            self.gateway.preprocessRequest,
-            service_request,
-            *ro_request.body,
-            **kwargs
-        )
-        d.addCallback(process_cb).addErrback(eb)
+        d.addCallback(auth_cb)
+        d.addCallback(preprocess_cb)
+        d.addCallback(response_cb)
 
-        return deferred_response
+        return d
 
     def __call__(self, amf_request, **kwargs):
         """
@@ -187,35 +171,39 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
         @return: A C{deferred} that will contain the AMF L{Response}.
         @rtype: C{Deferred<twisted.internet.defer.Deferred>}
         """
-        deferred_response = defer.Deferred()
-        ro_request = amf_request.body[0]
+        def get_request():
+            return amf_request.body[0]
 
-        def cb(amf_response):
-            deferred_response.callback(amf_response)
+        def process(ro_request):
+            return self._getBody(amf_request, ro_request, **kwargs)
 
-        def eb(failure):
+        def eb(failure, ro_request):
             errMesg = "%s: %s" % (failure.type, failure.getErrorMessage())
 
             if self.gateway.logger:
                 self.gateway.logger.error(errMesg)
                 self.gateway.logger.error(failure.getTraceback())
 
-            deferred_response.callback(
+            return remoting.Response(
                 self.buildErrorResponse(
                     ro_request,
                     (failure.type, failure.value, failure.tb)
-                )
+                ),
+                status=remoting.STATUS_ERROR
             )
 
-        d = defer.maybeDeferred(
-            self._getBody,
-            amf_request,
-            ro_request,
-            **kwargs
-        )
-        d.addCallback(cb).addErrback(eb)
+        try:
+            ro_request = amf_request.body[0]
+        except Exception:
+            ro_request = None
 
-        return deferred_response
+        d = defer.maybeDeferred(get_request)
+
+        d.addCallback(process)
+        d.addErrback(eb, ro_request)
+        d.addCallback(self.setChannelId, ro_request)
+
+        return d
 
 
 class TwistedGateway(gateway.BaseGateway, resource.Resource):
-- 
2.43.0


From 5c778a05ec0a62c8a8535f292e35ed58e2b114f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 102/114] fix: Twisted gateway accepts messages over AMF3
 without a target

---
 pyamf/remoting/gateway/twisted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 1b94dec..e1be95e 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -346,7 +346,7 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
         @param request: The AMF message.
         @type request: L{Request<pyamf.remoting.Request>}
         """
-        if request.target == 'null':
+        if request.target == 'null' or not request.target:
             return AMF3RequestProcessor(self)
 
         return AMF0RequestProcessor(self)
-- 
2.43.0


From 9a8af610838aaa0b3e01478ff76f6cced7fb8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 103/114] fix: App Engine gateway answers all requests that
 share an id

---
 pyamf/remoting/gateway/google.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/google.py b/pyamf/remoting/gateway/google.py
index b63c494..296cc34 100644
--- a/pyamf/remoting/gateway/google.py
+++ b/pyamf/remoting/gateway/google.py
@@ -54,7 +54,10 @@ class WebAppGateway(webapp.RequestHandler, gateway.BaseGateway):
             self.request.amf_request = message
 
             processor = self.getProcessor(message)
-            response[name] = processor(message, http_request=self.request)
+            response.append(
+                name,
+                processor(message, http_request=self.request)
+            )
 
         return response
 
-- 
2.43.0


From 43a5c8fe8d70e0c4691aac4679a94252096823cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 104/114] fix: App Engine gateway answers the other requests
 when one can not be encoded

---
 pyamf/remoting/gateway/google.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/google.py b/pyamf/remoting/gateway/google.py
index 296cc34..72578c7 100644
--- a/pyamf/remoting/gateway/google.py
+++ b/pyamf/remoting/gateway/google.py
@@ -153,7 +153,8 @@ class WebAppGateway(webapp.RequestHandler, gateway.BaseGateway):
                 response,
                 strict=self.strict,
                 logger=self.logger,
-                timezone_offset=timezone_offset
+                timezone_offset=timezone_offset,
+                on_error=self.buildEncodeErrorResponse
             )
         except:
             if self.logger:
-- 
2.43.0


From c3fb04ef5158e8793ab7089bec7b80662df612f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 105/114] fix: encode objects that have an attribute called
 keys

---
 pyamf/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 5a14b51..d2f8842 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -121,7 +121,7 @@ def get_properties(obj):
 
     @since: 0.5
     """
-    if hasattr(obj, 'keys'):
+    if hasattr(obj, 'keys') and hasattr(obj.keys, '__call__'):
         return obj.keys()
     elif hasattr(obj, '__dict__'):
         return obj.__dict__.keys()
-- 
2.43.0


From f34a923fd7587a6ca47beb4209b0c1c4ccf8fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 106/114] fix: find the handlers of model properties by their
 closest class

---
 pyamf/adapters/models.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyamf/adapters/models.py b/pyamf/adapters/models.py
index df154be..a125cc1 100644
--- a/pyamf/adapters/models.py
+++ b/pyamf/adapters/models.py
@@ -9,6 +9,8 @@ types of models.
 @since: 0.7.0
 """
 
+import inspect
+
 #: mapping of Model property class -> handler
 #: See L{register_property_decoder}
 _property_decoders = {}
@@ -72,37 +74,35 @@ def register_property_encoder(prop_class, replace=False):
     return wrapped
 
 
+def _get_property_handler(handlers, prop):
+    """
+    Returns the handler that is registered for the class of C{prop} or, if
+    there is none, for the closest of its base classes.
+    """
+    for klass in inspect.getmro(prop.__class__):
+        if klass in handlers:
+            return handlers[klass]
+
+
 def decode_model_property(obj, prop, value):
     """
     """
-    handler = _property_decoders.get(prop.__class__, None)
+    handler = _get_property_handler(_property_decoders, prop)
 
     if handler:
         return handler(obj, prop, value)
 
-    for model_prop, handler in _property_decoders.iteritems():
-        if isinstance(prop, model_prop):
-            _property_decoders[prop.__class__] = handler
-
-            return handler(obj, prop, value)
-
     return value
 
 
 def encode_model_property(obj, prop, value):
     """
     """
-    handler = _property_encoders.get(prop.__class__, None)
+    handler = _get_property_handler(_property_encoders, prop)
 
     if handler:
         return handler(obj, prop, value)
 
-    for model_prop, handler in _property_encoders.iteritems():
-        if isinstance(prop, model_prop):
-            _property_encoders[prop.__class__] = handler
-
-            return handler(obj, prop, value)
-
     return value
 
 
-- 
2.43.0


From 439f270129ec737444031402ff21f3c0bd37e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 107/114] fix: transform the datastore entities of each decoded
 value once

---
 pyamf/adapters/gae_base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyamf/adapters/gae_base.py b/pyamf/adapters/gae_base.py
index c5fb671..ada6d68 100644
--- a/pyamf/adapters/gae_base.py
+++ b/pyamf/adapters/gae_base.py
@@ -139,9 +139,15 @@ class StubCollection(object):
 
             return
 
-        for stub, (klass, key) in self.stubs.iteritems():
+        while self.stubs:
+            stub, (klass, key) = self.stubs.popitem(last=False)
+
             self.transformStub(stub, klass, key)
 
+        # the values that are decoded next have entities of their own
+        self.to_fetch = []
+        self.fetched_entities = None
+
 
 class BaseDatastoreClassAlias(pyamf.ClassAlias):
     """
-- 
2.43.0


From 35306f54af4340666f30594c2fb52e5c8971e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 108/114] fix: decode datastore entities that refer to each
 other

---
 pyamf/adapters/gae_base.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyamf/adapters/gae_base.py b/pyamf/adapters/gae_base.py
index ada6d68..93668c1 100644
--- a/pyamf/adapters/gae_base.py
+++ b/pyamf/adapters/gae_base.py
@@ -106,6 +106,16 @@ class StubCollection(object):
         stub.__dict__.clear()
         stub.__class__ = klass
 
+        ds_entity = None
+
+        if key is not None:
+            ds_entity = self.fetched_entities.get(key, None)
+
+        if ds_entity:
+            # before the entities that this one refers to are transformed,
+            # they may refer to this one
+            stub.__dict__.update(ds_entity.__dict__)
+
         for k, v in attrs.items():
             if not isinstance(v, EntityStub):
                 continue
@@ -117,14 +127,10 @@ class StubCollection(object):
 
             return
 
-        ds_entity = self.fetched_entities.get(key, None)
-
         if not ds_entity:
             attrs['key'] = key
             stub.__init__(**attrs)
         else:
-            stub.__dict__.update(ds_entity.__dict__)
-
             for k, v in attrs.items():
                 setattr(stub, k, v)
 
@@ -133,7 +139,7 @@ class StubCollection(object):
             self.fetched_entities = self.fetchEntities()
 
         if stub is not None:
-            stub, klass, key = self.stubs.pop(stub)
+            klass, key = self.stubs.pop(stub)
 
             self.transformStub(stub, klass, key)
 
-- 
2.43.0


From edbe70fbe76bd700d5e4914caf4f56fc337c2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 109/114] fix: encoding ndb entities does not change their
 repeated properties

---
 pyamf/adapters/_google_appengine_ext_ndb.py | 25 ++++++++-------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/pyamf/adapters/_google_appengine_ext_ndb.py b/pyamf/adapters/_google_appengine_ext_ndb.py
index cd70f96..ca3239d 100644
--- a/pyamf/adapters/_google_appengine_ext_ndb.py
+++ b/pyamf/adapters/_google_appengine_ext_ndb.py
@@ -121,14 +121,10 @@ class NDBClassAlias(gae_base.BaseDatastoreClassAlias):
 
                     continue
 
-                for idx, val in enumerate(value):
-                    value[idx] = adapter_models.decode_model_property(
-                        obj,
-                        prop,
-                        val
-                    )
-
-                attrs[name] = value
+                attrs[name] = [
+                    adapter_models.decode_model_property(obj, prop, val)
+                    for val in value
+                ]
 
         if self.non_repeated_properties:
             adapter_models.decode_model_properties(
@@ -150,14 +146,11 @@ class NDBClassAlias(gae_base.BaseDatastoreClassAlias):
         if not value:
             return []
 
-        for idx, val in enumerate(value):
-            value[idx] = adapter_models.encode_model_property(
-                obj,
-                prop,
-                val
-            )
-
-        return value
+        # a new list, the value is the one the entity holds
+        return [
+            adapter_models.encode_model_property(obj, prop, val)
+            for val in value
+        ]
 
     def getEncodableAttributes(self, obj, codec=None):
         attrs = super(NDBClassAlias, self).getEncodableAttributes(
-- 
2.43.0


From bbd74178d54d38b9d093ad93e5799813e3887ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 110/114] fix: encode ndb entities whose properties have names
 of their own

---
 pyamf/adapters/_google_appengine_ext_ndb.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyamf/adapters/_google_appengine_ext_ndb.py b/pyamf/adapters/_google_appengine_ext_ndb.py
index ca3239d..a1be935 100644
--- a/pyamf/adapters/_google_appengine_ext_ndb.py
+++ b/pyamf/adapters/_google_appengine_ext_ndb.py
@@ -72,7 +72,14 @@ class NDBClassAlias(gae_base.BaseDatastoreClassAlias):
         # list of property names that are computed
         computed_props = {}
 
-        for name, prop in self.klass._properties.iteritems():
+        for prop in self.klass._properties.itervalues():
+            # the datastore may know the attribute by another name
+            name = prop._code_name
+
+            if name == 'class_' and issubclass(
+                    self.klass, polymodel.PolyModel):
+                continue
+
             props[name] = prop
 
             if prop._repeated:
@@ -83,9 +90,6 @@ class NDBClassAlias(gae_base.BaseDatastoreClassAlias):
             if isinstance(prop, ndb.ComputedProperty):
                 computed_props[name] = prop
 
-        if issubclass(self.klass, polymodel.PolyModel):
-            del props['class']
-
         # check if the property is a defined as a computed property. These
         # types of properties are read-only
         for name, value in self.klass.__dict__.iteritems():
@@ -177,7 +181,7 @@ class NDBClassAlias(gae_base.BaseDatastoreClassAlias):
 
         if isinstance(obj, ndb.Expando):
             for name, prop in obj._properties.iteritems():
-                if name in self.model_properties:
+                if name in self.klass._properties:
                     continue
 
                 value = self.getAttribute(obj, name, codec=codec)
-- 
2.43.0


From 86348a10e55574166c44e539fb63a8189ce33966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 111/114] fix: encode keys of polymorphic entities as the
 entity they are

---
 pyamf/adapters/_google_appengine_ext_db.py  | 3 ++-
 pyamf/adapters/_google_appengine_ext_ndb.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/adapters/_google_appengine_ext_db.py b/pyamf/adapters/_google_appengine_ext_db.py
index efaf166..1a5085f 100644
--- a/pyamf/adapters/_google_appengine_ext_db.py
+++ b/pyamf/adapters/_google_appengine_ext_db.py
@@ -268,7 +268,8 @@ def encode_xdb_key(key, encoder=None):
     if not referenced_object:
         encoder.writeElement(None)
     else:
-        encoder.writeObject(referenced_object)
+        # the class of the entity may be a subclass of the one of its kind
+        encode_xdb_entity(referenced_object, encoder=encoder)
 
 
 @adapter_models.register_property_decoder(db.FloatProperty)
diff --git a/pyamf/adapters/_google_appengine_ext_ndb.py b/pyamf/adapters/_google_appengine_ext_ndb.py
index a1be935..c73ef2e 100644
--- a/pyamf/adapters/_google_appengine_ext_ndb.py
+++ b/pyamf/adapters/_google_appengine_ext_ndb.py
@@ -267,7 +267,8 @@ def encode_ndb_key(key, encoder=None):
 
         return
 
-    encoder.writeObject(referenced_object)
+    # the class of the entity may be a subclass of the one of its kind
+    encode_ndb_instance(referenced_object, encoder=encoder)
 
 
 def _get_by_class_key(codec, klass, key, obj=None):
-- 
2.43.0


From b6b66ae116474bb259ff538b2b71bc872f791504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:46 +0000
Subject: [PATCH 112/114] fix: encode sets of related objects mapped by
 SQLAlchemy

---
 pyamf/adapters/_sqlalchemy_orm_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/adapters/_sqlalchemy_orm_collections.py b/pyamf/adapters/_sqlalchemy_orm_collections.py
index 4bcee47..1cb18c6 100644
--- a/pyamf/adapters/_sqlalchemy_orm_collections.py
+++ b/pyamf/adapters/_sqlalchemy_orm_collections.py
@@ -17,7 +17,7 @@ from pyamf.adapters import util
 
 pyamf.add_type(collections.InstrumentedList, util.to_list)
 pyamf.add_type(collections.InstrumentedDict, util.to_dict)
-pyamf.add_type(collections.InstrumentedSet, util.to_set)
+pyamf.add_type(collections.InstrumentedSet, util.to_list)
 
 
 if hasattr(collections, 'CollectionAdapter'):
-- 
2.43.0


From 286a07cba78b0c6feb2fcb79445e20ae8472334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 113/114] fix: leave lazy attributes of static mapped objects
 unloaded

---
 pyamf/adapters/_sqlalchemy_orm.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyamf/adapters/_sqlalchemy_orm.py b/pyamf/adapters/_sqlalchemy_orm.py
index cb562a3..5f68f06 100644
--- a/pyamf/adapters/_sqlalchemy_orm.py
+++ b/pyamf/adapters/_sqlalchemy_orm.py
@@ -85,6 +85,15 @@ class SaMappedClassAlias(pyamf.ClassAlias):
     def getDecodableAttributes(self, obj, attrs, **kwargs):
         """
         """
+        if not self._compiled:
+            self.compile()
+
+        lazy_attrs = None
+
+        if not self.exclude_sa_lazy:
+            # only dynamic attributes would survive the filter
+            lazy_attrs = attrs.get(self.LAZY_ATTR)
+
         attrs = pyamf.ClassAlias.getDecodableAttributes(
             self,
             obj,
@@ -101,13 +110,13 @@ class SaMappedClassAlias(pyamf.ClassAlias):
         # This is the correct behavior, because SQLAlchemy ignores __init__.
         # So, an object retreived from a DB with SQLAlchemy will not have a
         # lazy-loaded value, even if __init__ specifies a default value.
-        if self.LAZY_ATTR in attrs:
+        if lazy_attrs is not None:
             obj_state = None
 
             if hasattr(orm.attributes, 'instance_state'):
                 obj_state = orm.attributes.instance_state(obj)
 
-            for lazy_attr in attrs[self.LAZY_ATTR]:
+            for lazy_attr in lazy_attrs:
                 if lazy_attr in obj.__dict__:
                     # Delete directly from the dict, so
                     # SA callbacks are not triggered.
@@ -128,6 +137,7 @@ class SaMappedClassAlias(pyamf.ClassAlias):
                 if lazy_attr in attrs:
                     del attrs[lazy_attr]
 
+        if self.LAZY_ATTR in attrs:
             del attrs[self.LAZY_ATTR]
 
         if self.KEY_ATTR in attrs:
-- 
2.43.0


From 4f8124e6b6e74ec51ad10623541622291380e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 114/114] fix: messages and envelopes that are equal are no
 longer different as well

---
 pyamf/remoting/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 1c9bc56..4bd4845 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -259,6 +259,11 @@ class Envelope(object):
 
             return True
 
+        return False
+
+    def __ne__(self, other):
+        return not self == other
+
 
 class Message(object):
     """
@@ -288,6 +293,9 @@ class Message(object):
 
         return self.body == other.body
 
+    def __ne__(self, other):
+        return not self == other
+
 
 class Request(Message):
     """
-- 
2.43.0

