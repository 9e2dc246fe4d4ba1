From f3c5734c9141604e4969527a55285d203851ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 01/67] fix: encodeSize() rejects sizes that do not fit the
 explicit length

---
 ebmlite/encoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index f7b9e53..21b4f2a 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -87,9 +87,12 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
         length = 1 if (length is None or length == -1) else length
         return b'\xff' * length
 
-    length = getLength(val) if (length is None or length == -1) else length
+    explicit = not (length is None or length == -1)
+    length = length if explicit else getLength(val)
     try:
         prefix = LENGTH_PREFIXES[length]
+        if explicit and val > 2**(7*length) - 2:
+            raise ValueError("Size does not fit (all bits 1 is reserved)")
         return encodeUInt(val | prefix, length)
     except (IndexError, TypeError, ValueError):
         raise ValueError("Cannot encode element size %s" % length)
-- 
2.43.0


From 692d67667114be3ebb0dea4eeb5dff562aac48d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 02/67] fix: write a valid 'unknown' size when encoding
 infinite elements with lengthSize

---
 ebmlite/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index aa9fea2..a09641a 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -264,7 +264,13 @@ class Element(object):
         payload = cls.encodePayload(value, length=length)
         length = None if infinite else (length or len(payload))
         encId = encoding.encodeId(cls.id)
-        return encId + encoding.encodeSize(length, lengthSize) + payload
+        if infinite and lengthSize not in (None, -1, 1):
+            # 'Unknown' size of an explicit width: length marker, then all 1s
+            encSize = encoding.encodeUInt(encoding.LENGTH_PREFIXES[lengthSize] * 2 - 1,
+                                          lengthSize)
+        else:
+            encSize = encoding.encodeSize(length, lengthSize)
+        return encId + encSize + payload
 
     def dump(self):
         """ Dump this element's value as nested dictionaries, keyed by
-- 
2.43.0


From 7db2d27c1f2b527f7a9b459c37d09db6dbd4d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 03/67] fix: encode lists of name/value tuples as documented

---
 ebmlite/core.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index a09641a..d384bb1 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -228,6 +228,14 @@ class Element(object):
         return encoding.encodeBinary(data, length)
 
 
+    @classmethod
+    def _isValueList(cls, value: Any) -> bool:
+        """ Is the given data a list of values, to be encoded as multiple
+            elements (as opposed to the value of one element)?
+        """
+        return isinstance(value, (list, tuple))
+
+
     @classmethod
     def encode(cls,
                value: Any,
@@ -253,7 +261,7 @@ class Element(object):
         if infinite and not issubclass(cls, MasterElement):
             raise ValueError("Only Master elements can have 'infinite' lengths")
         length = cls.length if length is None else length
-        if isinstance(value, (list, tuple)):
+        if cls._isValueList(value):
             if not cls.multiple:
                 raise ValueError("Multiple %s elements per parent not permitted"
                                  % cls.name)
@@ -725,6 +733,14 @@ class MasterElement(Element):
 
         return result
 
+    @classmethod
+    def _isValueList(cls, value: Any) -> bool:
+        """ Is the given data a list of values, to be encoded as multiple
+            elements? A list of name/value tuples is the contents of one.
+        """
+        return (isinstance(value, (list, tuple))
+                and not (len(value) > 0 and isinstance(value[0], tuple)))
+
     @classmethod
     def encode(cls, 
                data: Union[Dict[str, Any], List[Tuple[str, Any]]], 
@@ -748,16 +764,6 @@ class MasterElement(Element):
             :return: A bytearray containing the encoded EBML binary.
         """
         # TODO: Use 'length' to automatically generate `Void` element?
-        if isinstance(data, list) and len(data) > 0 and isinstance(data[0], list):
-            # List of lists: special case for 'master' elements.
-            # Encode as multiple 'master' elements.
-            result = bytearray()
-            for v in data:
-                result.extend(cls.encode(v, length=length,
-                                         lengthSize=lengthSize,
-                                         infinite=infinite))
-            return result
-
         # TODO: Remove 'infinite' kwarg from `Element.encode()` and handle it
         # here, since it only applied to Master elements.
         return super(MasterElement, cls).encode(data, length=length,
@@ -1021,6 +1027,9 @@ class Document(MasterElement):
                 raise TypeError('Cannot encode multiple Documents')
             else:
                 for v in data:
+                    if isinstance(v, tuple):
+                        # A name/value pair
+                        v = [v]
                     stream.write(cls.encodePayload(v))
         else:
             stream.write(cls.encodePayload(data))
-- 
2.43.0


From 48ed459f2f5d6be9790545deaacf1b70701df805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 04/67] fix: MasterElement.gc() counts its own cached value
 when not recursing

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index d384bb1..5bd0d06 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -702,8 +702,9 @@ class MasterElement(Element):
         """
         cleared = 0
         if self._value is not None:
+            cleared = 1
             if recurse:
-                cleared = sum(ch.gc(recurse) for ch in self._value) + 1
+                cleared += sum(ch.gc(recurse) for ch in self._value)
             self._value = None
         return cleared
 
-- 
2.43.0


From d32bb1f77dd2ec8f7ff689c9d278835d93e6903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 05/67] fix: allow Documents to be read from unnamed files

---
 ebmlite/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 5bd0d06..2e9cb81 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -843,6 +843,10 @@ class Document(MasterElement):
         except AttributeError:
             self.filename = ""
 
+        if not isinstance(self.filename, (str, bytes, Path)):
+            # Unnamed files (e.g. `tempfile.TemporaryFile`) have a number
+            self.filename = ""
+
         if name is None:
             if self.filename:
                 self.name = os.path.splitext(os.path.basename(self.filename))[0]
-- 
2.43.0


From 534f7d33756bdc5646fa3bb22a6d6e31ec56737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 06/67] fix: size and length of a Document on a stream of
 unknown size cover all root elements

---
 ebmlite/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 2e9cb81..618d2d6 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -900,6 +900,13 @@ class Document(MasterElement):
         if self._ownsStream:
             self.stream.close()
 
+    @classmethod
+    def _isValidChild(cls, elId: int) -> bool:
+        """ Documents of unknown size end at the end of the stream; like
+            iteration, calculating the size does not stop for any element.
+        """
+        return True
+
     def __len__(self) -> int:
         """ x.__len__() <==> len(x)
             Not recommended for huge documents.
-- 
2.43.0


From 910cfe260a2a77906a7b2f7ed5967bf47d8af37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 07/67] fix: global elements are valid in 'infinite' elements
 with no other children

---
 ebmlite/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 618d2d6..2b040ff 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -599,10 +599,7 @@ class MasterElement(Element):
             explicitly specified as a child element or a 'global' in the
             schema?
         """
-        if not cls.children:
-            return False
-
-        return elId in cls.children or elId in cls.schema.globals
+        return elId in (cls.children or ()) or elId in cls.schema.globals
 
 
     @property
-- 
2.43.0


From fbfa3bb552915b43559f8f39f99d1322af328c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 08/67] fix: schema without a default DocType is named after
 its file

---
 ebmlite/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 2b040ff..1b90dc9 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1157,6 +1157,8 @@ class Schema(object):
 
         # Schema name. Defaults to the schema's default EBML 'DocType'
         self.name = name or self.type
+        if not self.name and self.filename:
+            self.name = os.path.splitext(os.path.basename(self.filename))[0]
 
         # Create the schema's Document subclass.
         self.document = type('%sDocument' % self.name.title(), (Document,),
-- 
2.43.0


From f84c5691b6276d655e211a2283f38ce263622c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 09/67] fix: createID() includes the maximum ID

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8dd6b97..e053280 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -73,7 +73,7 @@ def createID(schema: core.Schema,
     exclude = set(exclude).union(schema.elements.keys())
 
     result = []
-    for i in (x for x in range(*idrange) if x not in exclude):
+    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
         if len(result) == count:
             break
         result.append(i)
-- 
2.43.0


From 0e65a134b3cd46345f87c0639dd9e62057521d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 10/67] fix: Base64Codec with cols=0 writes one line, as
 documented

---
 ebmlite/xml_codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/xml_codecs.py b/ebmlite/xml_codecs.py
index 62407ca..95712f6 100644
--- a/ebmlite/xml_codecs.py
+++ b/ebmlite/xml_codecs.py
@@ -130,7 +130,7 @@ class Base64Codec(BinaryCodec):
 
         result = result.replace('\n', '')
 
-        if self.cols is None:
+        if not self.cols:
             if stream is not None:
                 return out.write(result)
             return result
-- 
2.43.0


From 8c6c770b2f759b83f267272b2b8a96246e42d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 11/67] fix: converting unknown XML elements no longer alters
 UnknownElement

---
 ebmlite/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index e053280..535f611 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -249,9 +249,10 @@ def xmlElement2ebml(xmlEl,
         if eid is None:
             raise NameError("Unrecognized EBML element name with no 'id' "
                             "attribute in XML: %s" % xmlEl.tag)
-        cls = core.UnknownElement
         encId = encoding.encodeId(int(eid, 16))
-        cls.id = int(eid, 16)
+        # A subclass with the ID, as for elements in a schema. (Don't set the
+        # ID of `UnknownElement` itself; that breaks all its instances!)
+        cls = type('UnknownElement', (core.UnknownElement,), {'id': int(eid, 16)})
 
     codec = xmlEl.get('encoding', 'base64')
 
-- 
2.43.0


From c1c5eeb5a0d6f3a2b4186c2f706486bad4fccfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 12/67] fix: xmlElement2ebml() applies 'unknown' to nested
 elements

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 535f611..d3082dd 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -275,7 +275,7 @@ def xmlElement2ebml(xmlEl,
         ebmlFile.write(encoding.encodeSize(None, sl))
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl)
+            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown=unknown)
         endPos = ebmlFile.tell()
         ebmlFile.seek(sizePos)
         ebmlFile.write(encoding.encodeSize(size, sl))
-- 
2.43.0


From 77f22216556eb1cae9efe6b4c0a1d21838633644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 13/67] fix: read 'sizeLength' attribute of nested XML elements
 as a number

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index d3082dd..a3a9d37 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -267,7 +267,7 @@ def xmlElement2ebml(xmlEl,
         else:
             sl = int(sl)
     else:
-        sl = xmlEl.get('sizeLength', sizeLength)
+        sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
         ebmlFile.write(encId)
-- 
2.43.0


From 31ceb74bc2cb558db29f5697007c48ca38e2372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 14/67] fix: XML to EBML conversion uses a size descriptor
 large enough for the content

---
 ebmlite/util.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index a3a9d37..7df0c69 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -270,17 +270,16 @@ def xmlElement2ebml(xmlEl,
         sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
-        ebmlFile.write(encId)
-        sizePos = ebmlFile.tell()
-        ebmlFile.write(encoding.encodeSize(None, sl))
+        children = BytesIO()
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown=unknown)
-        endPos = ebmlFile.tell()
-        ebmlFile.seek(sizePos)
-        ebmlFile.write(encoding.encodeSize(size, sl))
-        ebmlFile.seek(endPos)
-        return len(encId) + (endPos - sizePos)
+            size += xmlElement2ebml(chEl, children, schema, sl, unknown=unknown)
+        if 'sizeLength' not in xmlEl.attrib:
+            # The XML's `size` may be out of date, and the default too small
+            sl = max(sl, encoding.getLength(size))
+        encSize = encoding.encodeSize(size, sl)
+        ebmlFile.write(encId + encSize + children.getvalue())
+        return len(encId) + len(encSize) + size
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
-- 
2.43.0


From 92d3c5b256359c60ec4855e9fa3a7a95cd01a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 15/67] fix: convert date elements from XML

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 7df0c69..7f61596 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -18,6 +18,7 @@ __all__ = ['createID', 'validateID', 'toXml', 'xml2ebml', 'loadXml', 'pprint',
            'printSchemata', 'flatiter']
 
 import ast
+from datetime import datetime
 from io import BytesIO
 import pathlib
 import struct
@@ -283,6 +284,8 @@ def xmlElement2ebml(xmlEl,
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
+    elif issubclass(cls, core.DateElement):
+        val = datetime.fromisoformat(xmlEl.get('value'))
     elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
-- 
2.43.0


From 33191c83fd4c5828598d2ef287525760f54452ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 16/67] fix: convert infinite and NaN float elements from XML

---
 ebmlite/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 7f61596..46d9f3a 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -286,7 +286,9 @@ def xmlElement2ebml(xmlEl,
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
     elif issubclass(cls, core.DateElement):
         val = datetime.fromisoformat(xmlEl.get('value'))
-    elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
+    elif issubclass(cls, core.FloatElement):
+        val = float(xmlEl.get('value'))
+    elif issubclass(cls, core.IntegerElement):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
         val = cls.dtype(xmlEl.get('value'))
-- 
2.43.0


From 1e99da9af98ae67351833c99d73c57772ec6e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 17/67] fix: convert zero-length integer elements from XML

---
 ebmlite/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 46d9f3a..d64aab0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -300,7 +300,11 @@ def xmlElement2ebml(xmlEl,
     if sl is not None:
         sl = int(sl)
 
-    encoded = cls.encode(val, size, lengthSize=sl)
+    if size == 0 and val == 0 and issubclass(cls, core.IntegerElement):
+        # Integers of length 0 are 0
+        encoded = encId + encoding.encodeSize(0, sl)
+    else:
+        encoded = cls.encode(val, size, lengthSize=sl)
     ebmlFile.write(encoded)
     return len(encoded)
 
-- 
2.43.0


From 07396178d91652bfcbc2abf4760f6e6ff6ae834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 18/67] fix: toXml() does not double-escape non-ASCII text

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index d64aab0..00cc4b8 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -202,7 +202,7 @@ def toXml(el: core.Element,
         xmlEl.set('encoding', binary_codec.NAME)
         xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
     elif not isinstance(el, core.VoidElement):
-        xmlEl.set('value', str(el.value).encode('ascii', 'xmlcharrefreplace').decode())
+        xmlEl.set('value', str(el.value))
 
     return xmlEl
 
-- 
2.43.0


From 47dfd91b777d731e2259337b6ea11893d7d9d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 19/67] fix: toXml() works for schemata not loaded from a file

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 00cc4b8..868e927 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -178,7 +178,7 @@ def toXml(el: core.Element,
     if isinstance(el, core.Document):
         xmlEl.set('source', el.filename)
         xmlEl.set('schemaName', el.schema.name)
-        xmlEl.set('schemaFile', el.schema.filename)
+        xmlEl.set('schemaFile', el.schema.filename or '')
     else:
         if ids and isinstance(el.id, int):
             xmlEl.set('id', "0x%X" % el.id)
-- 
2.43.0


From 3359a181702be8d06eacdb39b6402be8f63cfc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 20/67] fix: xml2ebml() does not add a second header to an EBML
 root element

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 868e927..845cb17 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -362,7 +362,7 @@ def xml2ebml(xmlFile,
                         "schema %s (wrong schema)" % (xmlRoot.tag, schema.name))
 
     headers = headers and 'EBML' in schema
-    if headers and 'EBML' not in (el.tag for el in xmlRoot):
+    if headers and xmlRoot.tag != 'EBML' and 'EBML' not in (el.tag for el in xmlRoot):
         pos = ebmlFile.tell()
         cls = schema.document
         ebmlFile.write(cls.encodePayload(cls._createHeaders()))
-- 
2.43.0


From 01c64053a928c56a5ca1880d470d55c2a455a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 21/67] fix: command-line tools can write binary output to
 standard output

---
 ebmlite/tools/utils.py | 2 +-
 ebmlite/util.py        | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 7169429..c8c6f3f 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -27,7 +27,7 @@ def load_files(args, binary_output=False):
         errPrint("Error loading schema: %s\n" % err)
 
     if not args.output:
-        yield schema, sys.stdout
+        yield schema, (sys.stdout.buffer if binary_output else sys.stdout)
         return
 
     output = os.path.realpath(os.path.expanduser(args.output))
diff --git a/ebmlite/util.py b/ebmlite/util.py
index 845cb17..9cda3eb 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -363,10 +363,10 @@ def xml2ebml(xmlFile,
 
     headers = headers and 'EBML' in schema
     if headers and xmlRoot.tag != 'EBML' and 'EBML' not in (el.tag for el in xmlRoot):
-        pos = ebmlFile.tell()
         cls = schema.document
-        ebmlFile.write(cls.encodePayload(cls._createHeaders()))
-        numBytes = ebmlFile.tell() - pos
+        encHeaders = cls.encodePayload(cls._createHeaders())
+        ebmlFile.write(encHeaders)
+        numBytes = len(encHeaders)
     else:
         numBytes = 0
 
-- 
2.43.0


From a1b4bc5150c26b9b0816da433a40c1f9747f57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 22/67] fix: command-line tools write text as UTF-8, as
 declared in the XML

---
 ebmlite/tools/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index c8c6f3f..ef036b3 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -33,5 +33,6 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
-    with open(output, ('wb' if binary_output else 'w')) as out:
+    with open(output, ('wb' if binary_output else 'w'),
+              encoding=(None if binary_output else 'utf-8')) as out:
         yield schema, out
-- 
2.43.0


From 514a0a5e4994ce41d46f1a597d90fb929b03f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 23/67] fix: ebml2xml keeps newlines and tabs in values of
 indented XML

---
 ebmlite/tools/ebml2xml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 5e3ca50..4bfa917 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -1,5 +1,4 @@
 import argparse
-from xml.dom.minidom import parseString
 from xml.etree import ElementTree as ET
 
 from ebmlite.tools import utils
@@ -65,11 +64,13 @@ def main():
             root = ebmlite.util.toXml(doc, offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)
         else:
             root = ebmlite.util.toXml(doc, offsets=False, sizes=False, types=False, ids=False, binary_codec=codec)
-        s = ET.tostring(root, encoding="utf-8")
         if args.single:
-            out.write(s)
+            out.write(ET.tostring(root, encoding="utf-8"))
         else:
-            parseString(s).writexml(out, addindent='\t', newl='\n', encoding='utf-8')
+            # Note: not using `minidom`, it loses newlines and tabs in values
+            ET.indent(root, '\t')
+            out.write('<?xml version="1.0" encoding="utf-8"?>\n')
+            out.write(ET.tostring(root, encoding="unicode") + '\n')
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 7ae5723b52f5598c9ff2ca8d10565d582c2a4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 24/67] fix: ThreadAwareFile refuses write modes given by
 keyword, and mode 'x'

---
 ebmlite/threaded_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 20609b0..454aadf 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -45,9 +45,9 @@ class ThreadAwareFile(io.FileIO):
             one of the "read" modes (``r``, ``rb``, ``rU``, etc.).
         """
         # Ensure the file mode, if specified, is "read."
-        mode = args[1] if len(args) > 1 else 'r'
+        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
         if isinstance(mode, str):
-            if 'a' in mode or 'w' in mode or '+' in mode:
+            if any(m in mode for m in 'awx+'):
                 raise IOError("%s is read-only" % self.__class__.__name__)
 
         # Undocumented keyword argument `_new` is used by `makeThreadAware()`
-- 
2.43.0


From 2673577e6a2de43de943ad6e8077069439ef9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 25/67] fix: ThreadAwareFile.close() no longer fails in
 cleanup()

---
 ebmlite/threaded_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 454aadf..42faef5 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -137,9 +137,9 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            for i in self.threads.keys():
-                if self.threads[i].closed:
-                    del self.threads[i]
+            for i, fp in list(self.threads.items()):
+                if fp.closed:
+                    self.threads.pop(i, None)
         finally:
             self._ready.set()
 
-- 
2.43.0


From 9d4c95f57e6c79beef57f47d2826ad204051d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 26/67] fix: new threads do not get the ThreadAwareFile stream
 of a thread that has ended

---
 ebmlite/threaded_file.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 42faef5..08edc22 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -17,6 +17,7 @@ import io
 import platform
 from threading import currentThread, Event
 from typing import BinaryIO, TextIO, Union
+from weakref import WeakKeyDictionary
 
 
 class ThreadAwareFile(io.FileIO):
@@ -63,7 +64,9 @@ class ThreadAwareFile(io.FileIO):
         self._ready = Event()  # NOT a lock; some things block, others wait
         self._ready.set()
 
-        self.threads = {}
+        # Streams, keyed by thread (not `Thread.ident`, which the system may
+        # reuse, giving a new thread the stream of one that has ended)
+        self.threads = WeakKeyDictionary()
         
         if newFile is True:
             # Getting the stream for the thread will open the file.
@@ -98,7 +101,7 @@ class ThreadAwareFile(io.FileIO):
             raise TypeError("Not a file: %r" % fileStream)
 
         f = cls(fileStream.name, fileStream.mode, _new=False)
-        f.threads[currentThread().ident] = fileStream
+        f.threads[currentThread()] = fileStream
         return f
 
 
@@ -107,7 +110,7 @@ class ThreadAwareFile(io.FileIO):
         """
         self._ready.wait(self.timeout)
 
-        ident = currentThread().ident
+        ident = currentThread()
         if ident not in self.threads:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
@@ -149,7 +152,7 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread().ident
+        ident = currentThread()
         if ident in self.threads:
             return self.threads[ident].closed
         return True
-- 
2.43.0


From 7041c151dfc68fa3ff8d35ae13448337bb58e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 27/67] fix: ThreadAwareFile reads with all standard methods
 (readinto, readall, ...)

---
 ebmlite/threaded_file.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 08edc22..c65e8b6 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -202,6 +202,15 @@ class ThreadAwareFile(io.FileIO):
     def read(self, *args, **kwargs):
         return self.getThreadStream().read(*args, **kwargs)
 
+    def readable(self):
+        return self.getThreadStream().readable()
+
+    def readall(self):
+        return self.getThreadStream().readall()
+
+    def readinto(self, *args, **kwargs):
+        return self.getThreadStream().readinto(*args, **kwargs)
+
     def readline(self, *args, **kwargs):
         return self.getThreadStream().readline(*args, **kwargs)
 
@@ -211,6 +220,9 @@ class ThreadAwareFile(io.FileIO):
     def seek(self, *args, **kwargs):
         return self.getThreadStream().seek(*args, **kwargs)
 
+    def seekable(self):
+        return self.getThreadStream().seekable()
+
     def tell(self):
         return self.getThreadStream().tell()
 
@@ -218,6 +230,9 @@ class ThreadAwareFile(io.FileIO):
         raise IOError("Can't truncate(); %s is read-only" %
                       self.__class__.__name__)
 
+    def writable(self):
+        return False
+
     def write(self, *args, **kwargs):
         raise IOError("Can't write(); %s is read-only" %
                       self.__class__.__name__)
-- 
2.43.0


From 454fdf26b3e73d086dd7deb8b3f8292d70c84341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 28/67] fix: damaged data after an 'infinite' element does not
 make its contents unreadable

---
 ebmlite/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 1b90dc9..abdc228 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -625,12 +625,11 @@ class MasterElement(Element):
                         numChildren += 1
                     else:
                         break
-                except TypeError as err:
-                    # Will occur at end of file; message will contain "ord()".
-                    if "ord()" in str(err):
-                        break
-                    # Not the expected EOF TypeError!
-                    raise
+                except (IOError, TypeError):
+                    # End of file, or not a readable element. The latter is
+                    # not part of this element, and will raise an exception
+                    # when reached; what precedes it can still be read.
+                    break
 
             self._size = end - self.payloadOffset
             self._length = numChildren
-- 
2.43.0


From 1f8657f6aa092893386af5d21a6a2d4f90402f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 29/67] fix: Schema.verify() includes the contents of the EBML
 header

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index abdc228..ce93c10 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1495,7 +1495,7 @@ class Schema(object):
 
             return True
 
-        return _crawl(self.loads(data))
+        return _crawl(self.load(BytesIO(data), headers=True))
 
 
 # ==============================================================================
-- 
2.43.0


From e698819a7d442ba5ad469b98300d7199143aad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 30/67] fix: loadSchema() recognizes a loaded file by any
 spelling of its path

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index ce93c10..a0277a0 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1620,7 +1620,7 @@ def loadSchema(filename: Union[str, Path],
                     continue
 
     if hasattr(filename, 'expanduser'):
-        filename = filename.expanduser().absolute()
+        filename = filename.expanduser().resolve()
 
     if str(filename) in SCHEMATA and not reload:
         return SCHEMATA[str(filename)]
-- 
2.43.0


From c48dd8f5b40e130dba9d9481f22256bc83a46623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 31/67] fix: long series of 'infinite' elements can be read

Finding the size of an 'infinite' element parsed the element after it, and so
on if that is 'infinite' too: RecursionError after a few hundred, and quadratic
time.
---
 ebmlite/core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index a0277a0..43fc3e0 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -619,12 +619,16 @@ class MasterElement(Element):
                 self.stream.seek(pos)
                 end = pos
                 try:
-                    # TODO: Cache parsed elements?
-                    el, pos = self.parseElement(self.stream, nocache=True)
-                    if self._isValidChild(el.id):
-                        numChildren += 1
-                    else:
+                    # Only parse children. If what follows this element is
+                    # another 'infinite' one, parsing it would find its size,
+                    # and so that of the next, etc., for the rest of the file.
+                    eid, _idlen = readElementID(self.stream)
+                    if not self._isValidChild(eid):
                         break
+                    # TODO: Cache parsed elements?
+                    self.stream.seek(pos)
+                    _el, pos = self.parseElement(self.stream, nocache=True)
+                    numChildren += 1
                 except (IOError, TypeError):
                     # End of file, or not a readable element. The latter is
                     # not part of this element, and will raise an exception
-- 
2.43.0


From 5f0a3beecab7d7581e5c473db52065a39db6b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 32/67] fix: an impossible size in an 'infinite' element does
 not make its contents unreadable

Seeking to the end of such an element fails if the file system cannot have
files of that size.
---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 43fc3e0..83382b2 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -616,9 +616,9 @@ class MasterElement(Element):
             pos = self.payloadOffset
             numChildren = 0
             while True:
-                self.stream.seek(pos)
                 end = pos
                 try:
+                    self.stream.seek(pos)
                     # Only parse children. If what follows this element is
                     # another 'infinite' one, parsing it would find its size,
                     # and so that of the next, etc., for the rest of the file.
-- 
2.43.0


From cfdd5fcbac1f4ea8a83fb920718d85222becb21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 33/67] fix: documents can be converted to XML whatever the
 name of the schema

The name (from the DocType or file name) became the tag of the root element
as is, so with a space, for example, the XML could not be parsed.
---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 83382b2..f6a3b85 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1163,8 +1163,10 @@ class Schema(object):
         if not self.name and self.filename:
             self.name = os.path.splitext(os.path.basename(self.filename))[0]
 
-        # Create the schema's Document subclass.
-        self.document = type('%sDocument' % self.name.title(), (Document,),
+        # Create the schema's Document subclass. Its name is also the tag of the
+        # root element in XML; replace any characters not valid there.
+        docname = re.sub(r'[^\w.-]|^(?=[\d.-])', '_', self.name.title())
+        self.document = type('%sDocument' % docname, (Document,),
                              {'schema': self, 'children': self.children})
 
     def _parseLegacySchema(self, schema):
-- 
2.43.0


From 013cb23ed1a905d05d0f5255fdbcdfdece2eae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 34/67] fix: xml2ebml() refuses unknown elements with IDs that
 cannot be read back

---
 ebmlite/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 9cda3eb..0573085 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -251,6 +251,8 @@ def xmlElement2ebml(xmlEl,
             raise NameError("Unrecognized EBML element name with no 'id' "
                             "attribute in XML: %s" % xmlEl.tag)
         encId = encoding.encodeId(int(eid, 16))
+        if decoding.decodeIDLength(encId[0])[0] != len(encId):
+            raise ValueError("Invalid EBML ID in XML: %s" % eid)
         # A subclass with the ID, as for elements in a schema. (Don't set the
         # ID of `UnknownElement` itself; that breaks all its instances!)
         cls = type('UnknownElement', (core.UnknownElement,), {'id': int(eid, 16)})
-- 
2.43.0


From 9c9afd5a1e5260fceb7d8ed440b01b240333b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 35/67] fix: documents can be converted to ASCII XML whatever
 the name of the schema

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index f6a3b85..082f7cb 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1165,7 +1165,7 @@ class Schema(object):
 
         # Create the schema's Document subclass. Its name is also the tag of the
         # root element in XML; replace any characters not valid there.
-        docname = re.sub(r'[^\w.-]|^(?=[\d.-])', '_', self.name.title())
+        docname = re.sub(r'(?a)[^\w.-]|^(?=[\d.-])', '_', self.name.title())
         self.document = type('%sDocument' % docname, (Document,),
                              {'schema': self, 'children': self.children})
 
-- 
2.43.0


From de734cbbf822356e19cc713f71856d3279e42631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 36/67] fix: schemata with neither a name nor a document type
 can be loaded from a stream

---
 ebmlite/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 082f7cb..a8cf142 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1165,7 +1165,7 @@ class Schema(object):
 
         # Create the schema's Document subclass. Its name is also the tag of the
         # root element in XML; replace any characters not valid there.
-        docname = re.sub(r'(?a)[^\w.-]|^(?=[\d.-])', '_', self.name.title())
+        docname = re.sub(r'(?a)[^\w.-]|^(?=[\d.-])', '_', (self.name or '').title())
         self.document = type('%sDocument' % docname, (Document,),
                              {'schema': self, 'children': self.children})
 
@@ -1672,5 +1672,6 @@ def parseSchema(src: str,
 
     schema = Schema(stream, name=name, **kwargs)
     name = name or schema.name
-    SCHEMATA[name] = schema
+    if name is not None:
+        SCHEMATA[name] = schema
     return schema
-- 
2.43.0


From 59d2d3fb4621d582542fa374b4bf90be8d8e6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 37/67] fix: an element cannot be redefined as a base type of
 its type

---
 ebmlite/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index a8cf142..d003564 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1282,7 +1282,10 @@ class Schema(object):
             ename = oldEl.name
             eid = oldEl.id
 
-            if not issubclass(self.elements[eid], baseClass):
+            # The exact type: some of the types are subclasses of others. (`Void`
+            # is defined as binary, its special type is set afterwards.)
+            oldBase = oldEl.__base__
+            if baseClass is not (BinaryElement if oldBase is VoidElement else oldBase):
                 raise TypeError('%s %r (ID 0x%02X) redefined as %s' %
                                 (oldEl.__name__, ename, eid, baseClass.__name__))
 
-- 
2.43.0


From 24efbaa8b52cac2e2e10199dcfc9326ee4bd2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 38/67] fix: listSchemata(absolute=False) shows the schemata of
 modules given as instances

---
 ebmlite/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index d003564..4ab3fc9 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1575,7 +1575,10 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                     # Casting to string is py35 fix. Remove in future.
                     xml = ET.parse(str(p))
                     if xml.getroot().tag == 'Schema':
-                        value = p if absolute else Path(path) / p.name
+                        if absolute or isinstance(path, types.ModuleType):
+                            value = p
+                        else:
+                            value = Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
                 except (ET.ParseError, IOError, TypeError):
                     continue
-- 
2.43.0


From e6d42e43a14c56a480b40c1a11f5e23534e8124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 39/67] fix: a reloaded schema replaces the old one for every
 spelling of its path

---
 ebmlite/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 4ab3fc9..5b0c08f 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1643,6 +1643,12 @@ def loadSchema(filename: Union[str, Path],
     with filename.open() as fs:
         schema = Schema(fs, **kwargs)
 
+    # When reloading, replace the old instance under all names it has been
+    # loaded by.
+    old = SCHEMATA.get(str(filename))
+    if old is not None:
+        SCHEMATA.update((k, schema) for k, v in list(SCHEMATA.items()) if v is old)
+
     SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
     return schema
 
-- 
2.43.0


From ea2bb41b4ac7172523551e598a4d236bb080e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 40/67] fix: an XML file of unknown encoding on the search path
 does not break listSchemata()

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 5b0c08f..4509526 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1580,7 +1580,8 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                         else:
                             value = Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
-                except (ET.ParseError, IOError, TypeError):
+                except (ET.ParseError, IOError, LookupError, TypeError, ValueError):
+                    # Not XML, not a file, unknown or unsupported encoding, etc.
                     continue
 
     return schemata
-- 
2.43.0


From 58676506b48ce5a1502743b406bfa8c3550697be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 41/67] fix: ThreadAwareFile does not iterate over a mapping
 other threads may change

---
 ebmlite/threaded_file.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index c65e8b6..8b64e4f 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -17,7 +17,6 @@ import io
 import platform
 from threading import currentThread, Event
 from typing import BinaryIO, TextIO, Union
-from weakref import WeakKeyDictionary
 
 
 class ThreadAwareFile(io.FileIO):
@@ -66,7 +65,7 @@ class ThreadAwareFile(io.FileIO):
 
         # Streams, keyed by thread (not `Thread.ident`, which the system may
         # reuse, giving a new thread the stream of one that has ended)
-        self.threads = WeakKeyDictionary()
+        self.threads = {}
         
         if newFile is True:
             # Getting the stream for the thread will open the file.
@@ -111,12 +110,18 @@ class ThreadAwareFile(io.FileIO):
         self._ready.wait(self.timeout)
 
         ident = currentThread()
-        if ident not in self.threads:
-            # First access from this thread. Open the file.
+        try:
+            return self.threads[ident]
+        except KeyError:
+            # First access from this thread. Open the file, and forget the
+            # streams of threads that have ended. (Other threads may do the
+            # same now, so don't iterate over `threads` itself.)
+            for t in list(self.threads):
+                if not t.is_alive():
+                    self.threads.pop(t, None)
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
             self.threads[ident] = fp
             return fp
-        return self.threads[ident]
 
 
     def closeAll(self):
@@ -152,10 +157,8 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread()
-        if ident in self.threads:
-            return self.threads[ident].closed
-        return True
+        fp = self.threads.get(currentThread())
+        return fp is None or fp.closed
 
 
     def close(self):
-- 
2.43.0


From 486d2d9775949cdcfb2395d970152e9c3e935266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 42/67] fix: ThreadAwareFile stays thread-aware in a with block

---
 ebmlite/threaded_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 8b64e4f..1a7c78c 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -245,7 +245,8 @@ class ThreadAwareFile(io.FileIO):
                       self.__class__.__name__)
 
     def __enter__(self, *args, **kwargs):
-        return self.getThreadStream().__enter__()
+        self.getThreadStream().__enter__()
+        return self
 
     def __exit__(self, *args, **kwargs):
         return self.getThreadStream().__exit__(*args, **kwargs)
-- 
2.43.0


From f8dc3b99dfb5b02c4d2e1e894f26d406ec32b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 43/67] fix: schemata that differ in the types of their
 elements are not equal

---
 ebmlite/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 4509526..776b0dd 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1365,11 +1365,14 @@ class Schema(object):
             return object.__repr__(self)
 
     def __eq__(self, other) -> bool:
-        """ Equality check. Schemata are considered equal if the attributes of
-            their elements match.
+        """ Equality check. Schemata are considered equal if the types and
+            attributes of their elements match.
         """
         try:
-            return self is other or self.elementInfo == other.elementInfo
+            return self is other or (
+                self.elementInfo == other.elementInfo
+                and all(el.__base__ is other.elements[eid].__base__
+                        for eid, el in self.elements.items()))
         except AttributeError:
             return False
 
-- 
2.43.0


From 116a600b030f764d2e2cc2585068baed35c07edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 44/67] fix: a float element is equal to itself, even if its
 value is NaN

---
 ebmlite/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 776b0dd..36d3ef8 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -351,6 +351,9 @@ class FloatElement(Element):
     precache = True
 
     def __eq__(self, other):
+        if other is self:
+            # Even if its value is NaN
+            return True
         if not super(FloatElement, self).__eq__(other):
             return False
         return self.value == other.value
-- 
2.43.0


From 3b7ad77acc2c4c13c1728bc09a622d0d776789e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 45/67] fix: getRaw reads from the right place when the size
 has to be found first

---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 36d3ef8..4cdc41d 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -195,14 +195,16 @@ class Element(object):
     def getRaw(self) -> bytes:
         """ Get the element's raw binary data, including EBML headers.
         """
+        size = self.size  # Finding an 'infinite' element's size moves the stream
         self.stream.seek(self.offset)
-        return self.stream.read(self.size + (self.payloadOffset - self.offset))
+        return self.stream.read(size + (self.payloadOffset - self.offset))
 
     def getRawValue(self) -> bytes:
         """ Get the raw binary of the element's value.
         """
+        size = self.size  # Finding an 'infinite' element's size moves the stream
         self.stream.seek(self.payloadOffset)
-        return self.stream.read(self.size)
+        return self.stream.read(size)
 
     # ==========================================================================
     # Caching (experimental)
-- 
2.43.0


From 82a699573d7994bbc8f2f6e5999298b5996cb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 46/67] fix: the 'global' attribute of a schema element takes
 the same Boolean values as the others

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 4cdc41d..5881821 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1324,7 +1324,7 @@ class Schema(object):
             multiple = _getBool(attribs, 'multiple', False)
             precache = _getBool(attribs, 'precache', baseClass.precache)
             length = _getInt(attribs, 'length', None)
-            isGlobal = _getInt(attribs, 'global', None)
+            isGlobal = _getBool(attribs, 'global', None)
 
             if isGlobal is None:
                 # Element 'level'. The old schema format used level to define
-- 
2.43.0


From 0499eb3280558bbd2ae49f5b102ccf9efdce51a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 47/67] fix: printSchemata() does not change the list of paths
 it is given

---
 ebmlite/util.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 0573085..c18a327 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -504,11 +504,7 @@ def printSchemata(paths: Optional[List[Union[str, Path]]] = None,
         out = open(out, 'w')
 
     try:
-        if paths:
-            paths.extend(core.SCHEMA_PATH)
-        else:
-            paths = core.SCHEMA_PATH
-        schemata = core.listSchemata(*paths, absolute=absolute)
+        schemata = core.listSchemata(*(paths or ()), *core.SCHEMA_PATH, absolute=absolute)
         for k, v in schemata.items():
             out.write("{}\n".format(k))
             for s in v:
-- 
2.43.0


From fd3e965ca87e6e609f120d35776e60fce3e81dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 48/67] fix: loadXml() accepts the file name of a schema, as
 documented

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index c18a327..e220253 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -404,6 +404,9 @@ def loadXml(xmlFile,
             automatically-generated temporary file.
         :return The root node of the specified EBML file.
     """
+    if not isinstance(schema, core.Schema):
+        schema = core.loadSchema(schema)
+
     if ebmlFile == ":memory:":
         ebmlFile = BytesIO()
         xml2ebml(xmlFile, ebmlFile, schema)
-- 
2.43.0


From ef35a25f27a5b7c9f693cae19799837a01fff7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 49/67] fix: do not take failing reads for the end of an
 'infinite' element

An I/O error while the size of an 'infinite' element was determined ended
the element there, for good, silently dropping the rest of its contents.
Only the end of the file and unreadable elements end it.
---
 ebmlite/core.py     | 26 +++++++++++++++++++++-----
 ebmlite/decoding.py |  8 +++++++-
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 5881821..51af26b 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -56,7 +56,7 @@ import types
 from typing import Any, BinaryIO, Dict, List, Optional, TextIO, Tuple, Union
 from xml.etree import ElementTree as ET
 
-from .decoding import readElementID, readElementSize
+from .decoding import InvalidElementError, readElementID, readElementSize
 from .decoding import readFloat, readInt, readUInt, readDate
 from .decoding import readString, readUnicode
 from . import encoding
@@ -592,6 +592,10 @@ class MasterElement(Element):
             el = self.schema.UNKNOWN(stream, offset, esize, payloadOffset,
                                      eid=eid, schema=self.schema)
 
+        if esize is None and el.size is None:
+            raise InvalidElementError("Only Master elements can have "
+                                      "'infinite' lengths")
+
         if el.precache and not nocache:
             # Read the value now, avoiding a seek later.
             el._value = el.parse(stream, el.size)
@@ -624,6 +628,12 @@ class MasterElement(Element):
                 end = pos
                 try:
                     self.stream.seek(pos)
+                except OSError as err:
+                    if err.errno == errno.EINVAL:
+                        # A child claims to be larger than a file can be
+                        break
+                    raise
+                try:
                     # Only parse children. If what follows this element is
                     # another 'infinite' one, parsing it would find its size,
                     # and so that of the next, etc., for the rest of the file.
@@ -634,11 +644,17 @@ class MasterElement(Element):
                     self.stream.seek(pos)
                     _el, pos = self.parseElement(self.stream, nocache=True)
                     numChildren += 1
-                except (IOError, TypeError):
-                    # End of file, or not a readable element. The latter is
-                    # not part of this element, and will raise an exception
-                    # when reached; what precedes it can still be read.
+                except InvalidElementError:
+                    # Not a readable element. It is not part of this element,
+                    # and will raise an exception when reached; what precedes
+                    # it can still be read.
                     break
+                except TypeError as err:
+                    # Will occur at end of file; message will contain "ord()".
+                    if "ord()" in str(err):
+                        break
+                    # Not the expected EOF TypeError!
+                    raise
 
             self._size = end - self.payloadOffset
             self._length = numChildren
diff --git a/ebmlite/decoding.py b/ebmlite/decoding.py
index bb2dbb0..4cd069d 100644
--- a/ebmlite/decoding.py
+++ b/ebmlite/decoding.py
@@ -43,6 +43,12 @@ _struct_float64_unpack = _struct_float64.unpack
 # --- Reading and Decoding
 # ==============================================================================
 
+class InvalidElementError(IOError):
+    """ Exception raised if what was read cannot be the start of an element
+        (as opposed to failing to read it).
+    """
+
+
 def decodeIntLength(byte: int) -> Tuple[int, int]:
     """ Extract the encoded size from an initial byte.
 
@@ -84,7 +90,7 @@ def decodeIDLength(byte: int) -> Tuple[int, int]:
         return 4, byte
 
     length, _ = decodeIntLength(byte)
-    raise IOError('Invalid length for ID: %d' % length)
+    raise InvalidElementError('Invalid length for ID: %d' % length)
 
 
 def readElementID(stream: BinaryIO) -> Tuple[int, int]:
-- 
2.43.0


From 07be7534e2711157c6083b3d9281e776d23cc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 50/67] fix: do not make up the size of an element whose size
 descriptor is cut off

At the end of a truncated file, the bytes missing from an element's size
were ignored, and an element of a wrong size reported.
---
 ebmlite/decoding.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/decoding.py b/ebmlite/decoding.py
index 4cd069d..ef8db95 100644
--- a/ebmlite/decoding.py
+++ b/ebmlite/decoding.py
@@ -122,8 +122,10 @@ def readElementSize(stream: BinaryIO) -> Tuple[Optional[int], int]:
     length, size = decodeIntLength(ord(ch))
 
     if length > 1:
-        size = _struct_uint64_unpack((chr(size).encode('latin-1') +
-                                      stream.read(length - 1)
+        data = stream.read(length - 1)
+        if len(data) < length - 1:
+            raise InvalidElementError('Unexpected end of data in element size')
+        size = _struct_uint64_unpack((chr(size).encode('latin-1') + data
                                       ).rjust(8, b'\x00'))[0]
 
     if size == (2**(7*length)) - 1:
-- 
2.43.0


From b32618aa34cc8e53476006946b147dfe8dfed5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 51/67] fix: ConfigID was missing from UIntField in the MIDE
 config UI schema

Its tag was not one of an element (IntegerField), so the definition was
ignored, and a UIntField of unknown size ended at its ConfigID.
---
 ebmlite/schemata/mide_config_ui.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/schemata/mide_config_ui.xml b/ebmlite/schemata/mide_config_ui.xml
index 9836e04..75ac7a8 100644
--- a/ebmlite/schemata/mide_config_ui.xml
+++ b/ebmlite/schemata/mide_config_ui.xml
@@ -55,7 +55,7 @@
             </MasterElement>
 
             <MasterElement name="UIntField" global="1" id="0x4001" multiple="1">
-                <IntegerField name="ConfigID" id="0x5001" multiple="0"></IntegerField>
+                <UIntegerElement name="ConfigID" id="0x5001" multiple="0"></UIntegerElement>
                 <UnicodeElement name="Label" id="0x5005" multiple="0"></UnicodeElement>
                 <UnicodeElement name="ToolTip" id="0x5015" multiple="0"></UnicodeElement>
                 <UnicodeElement name="Units" id="0x5025" multiple="0"></UnicodeElement>
-- 
2.43.0


From 8df69ce78a68b3ca1c054c5e85ed9b159bf78992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 52/67] fix: chapters and tags of the Matroska schema may
 contain each other

ChapterAtom and SimpleTag are declared as recursive, which ebmlite does not
know: they were not among their own children, and one of unknown size ended
at the first one nested in it.
---
 ebmlite/schemata/matroska.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebmlite/schemata/matroska.xml b/ebmlite/schemata/matroska.xml
index a00281c..38e14ff 100644
--- a/ebmlite/schemata/matroska.xml
+++ b/ebmlite/schemata/matroska.xml
@@ -192,6 +192,7 @@
             <UIntegerElement name="EditionFlagDefault" id="0x45DB" mandatory="1" minver="1" webm="0" default="0" range="0-1">If a flag is set (1) the edition should be used as the default one. (1 bit)</UIntegerElement>
             <UIntegerElement name="EditionFlagOrdered" id="0x45DD" minver="1" webm="0" default="0" range="0-1">Specify if the chapters can be defined multiple times and the order to play them is enforced. (1 bit)</UIntegerElement>
             <MasterElement name="ChapterAtom" recursive="1" id="0xB6" mandatory="1" multiple="1" minver="1" webm="0">Contains the atom information to use as the chapter atom (apply to all tracks).
+                <MasterElement name="ChapterAtom" id="0xB6"/>
                 <UIntegerElement name="ChapterUID" id="0x73C4" mandatory="1" minver="1" webm="0" range="not 0">A unique ID to identify the Chapter.</UIntegerElement>
                 <UIntegerElement name="ChapterTimeStart" id="0x91" mandatory="1" minver="1" webm="0">Timecode of the start of Chapter (not scaled).</UIntegerElement>
                 <UIntegerElement name="ChapterTimeEnd" id="0x92" minver="1" webm="0">Timecode of the end of Chapter (timecode excluded, not scaled).</UIntegerElement>
@@ -227,6 +228,7 @@
                 <UIntegerElement name="TagAttachmentUID" id="0x63C6" multiple="1" minver="1" webm="0" default="0">A unique ID to identify the Attachment(s) the tags belong to. If the value is 0 at this level, the tags apply to all the attachments in the Segment.</UIntegerElement>
             </MasterElement>
             <MasterElement name="SimpleTag" cppname="TagSimple" recursive="1" id="0x67C8" mandatory="1" multiple="1" minver="1" webm="0">Contains general information about the target.
+                <MasterElement name="SimpleTag" id="0x67C8"/>
                 <UnicodeElement name="TagName" id="0x45A3" mandatory="1" minver="1" webm="0">The name of the Tag that is going to be stored.</UnicodeElement>
                 <StringElement name="TagLanguage" id="0x447A" mandatory="1" minver="1" webm="0" default="und">Specifies the language of the tag specified, in the <a href="http://www.matroska.org/technical/specs/index.html#languages">Matroska languages form</a>.</StringElement>
                 <UIntegerElement name="TagDefault" id="0x4484" mandatory="1" minver="1" webm="0" default="1" range="0-1">Indication to know if this is the default/original language to use for the given tag. (1 bit)</UIntegerElement>
-- 
2.43.0


From e5655e47e5038f50accf3883b6ac57a24c035747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 53/67] fix: a schema could not be read from a file object
 whose name is not a string

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 51af26b..25048cd 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1146,7 +1146,8 @@ class Schema(object):
 
         if isinstance(source, (str, Path)):
             self.filename = os.path.realpath(source)
-        elif hasattr(source, "name"):
+        elif isinstance(getattr(source, "name", None), (str, bytes, Path)):
+            # Unnamed files (e.g. `tempfile.TemporaryFile`) have a number
             self.filename = os.path.realpath(source.name)
 
         self.elements = {}    # Element types, keyed by ID
-- 
2.43.0


From e714d744d54bea87a99a27652a04a9005372d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 54/67] fix: loadSchema disregarded the encoding an XML file
 declares

The file was opened as text in the encoding of the locale, so schemata in
other encodings (and non-ASCII ones in other locales) failed or were garbled.
---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 25048cd..efb5248 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1666,7 +1666,7 @@ def loadSchema(filename: Union[str, Path],
     if not filename.is_file():
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
 
-    with filename.open() as fs:
+    with filename.open('rb') as fs:
         schema = Schema(fs, **kwargs)
 
     # When reloading, replace the old instance under all names it has been
-- 
2.43.0


From 088f70a4d5a251bd00d3591fac4fc4be3cfbd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 55/67] fix: parseSchema accepts byte strings and any kind of
 stream

Byte strings are what the documentation of Schema mentions; streams that are
not IOBase (e.g. tempfile.NamedTemporaryFile) were taken for strings.
---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index efb5248..7215014 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -48,7 +48,7 @@ from ast import literal_eval
 from datetime import datetime
 import errno
 import importlib.resources as importlib_resources
-from io import BytesIO, StringIO, IOBase
+from io import BytesIO, StringIO
 import os.path
 from pathlib import Path
 import re
@@ -1703,8 +1703,10 @@ def parseSchema(src: str,
     if name in SCHEMATA and not reload:
         return SCHEMATA[name]
 
-    if isinstance(src, IOBase):
+    if hasattr(src, 'read'):
         stream = src
+    elif isinstance(src, (bytes, bytearray)):
+        stream = BytesIO(src)
     else:
         stream = StringIO(src)
 
-- 
2.43.0


From 46747a30a613b59bb0fc2ccaf822f0305f603550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 56/67] fix: names of files opened with bytes paths are text

XML of documents read from such files could not be written out, and schemata
could not be read from them.
---
 ebmlite/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 7215014..febf64d 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -864,7 +864,9 @@ class Document(MasterElement):
         except AttributeError:
             self.filename = ""
 
-        if not isinstance(self.filename, (str, bytes, Path)):
+        if isinstance(self.filename, bytes):
+            self.filename = os.fsdecode(self.filename)
+        elif not isinstance(self.filename, (str, Path)):
             # Unnamed files (e.g. `tempfile.TemporaryFile`) have a number
             self.filename = ""
 
@@ -1148,7 +1150,7 @@ class Schema(object):
             self.filename = os.path.realpath(source)
         elif isinstance(getattr(source, "name", None), (str, bytes, Path)):
             # Unnamed files (e.g. `tempfile.TemporaryFile`) have a number
-            self.filename = os.path.realpath(source.name)
+            self.filename = os.path.realpath(os.fsdecode(source.name))
 
         self.elements = {}    # Element types, keyed by ID
         self.elementsByName = {}  # Element types, keyed by element name
-- 
2.43.0


From 58025d9eb7c6057a00474534d921ca65a6da70d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 57/67] fix: XML of a document whose schema has no name could
 not be written out

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index e220253..40c30ea 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -177,7 +177,7 @@ def toXml(el: core.Element,
         xmlEl = ET.SubElement(parent, elname)
     if isinstance(el, core.Document):
         xmlEl.set('source', el.filename)
-        xmlEl.set('schemaName', el.schema.name)
+        xmlEl.set('schemaName', el.schema.name or '')
         xmlEl.set('schemaFile', el.schema.filename or '')
     else:
         if ids and isinstance(el.id, int):
-- 
2.43.0


From 9f1047a1dece6ac9541c54686fb674b6faaf9693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 58/67] fix: loadXml with a stream returned a document that
 begins at its end

---
 ebmlite/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 40c30ea..6a4c043 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -411,6 +411,10 @@ def loadXml(xmlFile,
         ebmlFile = BytesIO()
         xml2ebml(xmlFile, ebmlFile, schema)
         ebmlFile.seek(0)
+    elif hasattr(ebmlFile, 'write'):
+        start = ebmlFile.tell()
+        xml2ebml(xmlFile, ebmlFile, schema)
+        ebmlFile.seek(start)
     else:
         ebmlFile = tempfile.mktemp() if ebmlFile is None else ebmlFile
         xml2ebml(xmlFile, ebmlFile, schema)
-- 
2.43.0


From 18c026d091cc11ba9a44d5ec72b14295e9475071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 59/67] fix: repr() of a ThreadAwareFile opened by keyword
 raised IndexError

---
 ebmlite/threaded_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 1a7c78c..2faeef7 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -84,7 +84,7 @@ class ThreadAwareFile(io.FileIO):
             
         return fmt % ("closed" if self.closed else "open",
                       self.__class__.__name__, 
-                      self.initArgs[0],
+                      (self.initArgs or (self.initKwargs.get('file'),))[0],
                       self._mode, 
                       id(self))
         
-- 
2.43.0


From 5209131aa23bbf5fd52e8c234d1933e88e142474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 60/67] fix: listSchemata(absolute=True) lists absolute paths
 for relative search paths

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index febf64d..c3de8d8 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1603,7 +1603,7 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                     xml = ET.parse(str(p))
                     if xml.getroot().tag == 'Schema':
                         if absolute or isinstance(path, types.ModuleType):
-                            value = p
+                            value = p.absolute() if isinstance(p, Path) else p
                         else:
                             value = Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
-- 
2.43.0


From a9163844fc59cc94d4b720a5669fd8f510f39389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 61/67] fix: encodeSize of an unknown size accepted invalid
 lengths

---
 ebmlite/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index 21b4f2a..86bce1c 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -85,6 +85,8 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
     if val is None:
         # 'unknown' size: all bits 1.
         length = 1 if (length is None or length == -1) else length
+        if length not in range(1, 9):
+            raise ValueError("Cannot encode element size %s" % length)
         return b'\xff' * length
 
     explicit = not (length is None or length == -1)
-- 
2.43.0


From 20df917f9fc48cf1fbd9703b9c515faa825d6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:16 +0000
Subject: [PATCH 62/67] fix: close the EBML file xml2ebml() opens when the
 conversion fails

---
 ebmlite/util.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 6a4c043..f5d72a8 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -341,10 +341,8 @@ def xml2ebml(xmlFile,
         :raise NameError: raises if an xml element is not present in the schema.
     """
     if isinstance(ebmlFile, (str, Path)):
-        ebmlFile = open(ebmlFile, 'wb')
-        openedEbml = True
-    else:
-        openedEbml = False
+        with open(ebmlFile, 'wb') as f:
+            return xml2ebml(xmlFile, f, schema, sizeLength, headers, unknown)
 
     if not isinstance(schema, core.Schema):
         schema = core.loadSchema(schema)
@@ -380,9 +378,6 @@ def xml2ebml(xmlFile,
         numBytes += xmlElement2ebml(xmlRoot, ebmlFile, schema, sizeLength,
                                     unknown=unknown)
 
-    if openedEbml:
-        ebmlFile.close()
-
     return numBytes
 
 # ===========================================================================
-- 
2.43.0


From cab5e1ac6854737b757c969ab3990646268f1baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:23 +0000
Subject: [PATCH 63/67] fix: toXml wrote names of files that XML cannot carry

---
 ebmlite/util.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index f5d72a8..5b342ba 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -21,6 +21,7 @@ import ast
 from datetime import datetime
 from io import BytesIO
 import pathlib
+import re
 import struct
 import sys
 import tempfile
@@ -130,6 +131,10 @@ def validateID(elementId: int) -> bool:
 # ==============================================================================
 
 
+# Characters that cannot appear in XML, not even escaped
+_NOT_XML = re.compile('[^\\t\\n\\r -\\ud7ff\\ue000-\\ufffd\\U00010000-\\U0010ffff]')
+
+
 def toXml(el: core.Element,
           parent=None,
           offsets: bool = True,
@@ -176,9 +181,10 @@ def toXml(el: core.Element,
     else:
         xmlEl = ET.SubElement(parent, elname)
     if isinstance(el, core.Document):
-        xmlEl.set('source', el.filename)
-        xmlEl.set('schemaName', el.schema.name or '')
-        xmlEl.set('schemaFile', el.schema.filename or '')
+        # Note: names may contain characters that cannot appear in XML
+        xmlEl.set('source', _NOT_XML.sub('?', str(el.filename)))
+        xmlEl.set('schemaName', _NOT_XML.sub('?', el.schema.name or ''))
+        xmlEl.set('schemaFile', _NOT_XML.sub('?', el.schema.filename or ''))
     else:
         if ids and isinstance(el.id, int):
             xmlEl.set('id', "0x%X" % el.id)
-- 
2.43.0


From 871e7b137a8a6527a7ba942c41a48e1824997fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 64/67] fix: streams that are false while empty were taken for
 none

---
 ebmlite/util.py       | 2 +-
 ebmlite/xml_codecs.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 5b342ba..ffc7ad0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -506,7 +506,7 @@ def printSchemata(paths: Optional[List[Union[str, Path]]] = None,
         :param absolute: If `True`, use absolute paths in the schema
             filenames.
     """
-    out = out or sys.stdout
+    out = sys.stdout if out is None or out == '' else out
     newfile = isinstance(out, (str, Path))
     if newfile:
         out = open(out, 'w')
diff --git a/ebmlite/xml_codecs.py b/ebmlite/xml_codecs.py
index 95712f6..8f0186b 100644
--- a/ebmlite/xml_codecs.py
+++ b/ebmlite/xml_codecs.py
@@ -307,7 +307,7 @@ class IgnoreCodec(BinaryCodec):
     def encode(data: bytes,
                stream: Optional[BinaryIO] = None,
                **kwargs) -> Union[str, int]:
-        if stream:
+        if stream is not None:
             return 0
         return ''
 
@@ -315,7 +315,7 @@ class IgnoreCodec(BinaryCodec):
     def decode(data: bytes,
                stream: Optional[BinaryIO] = None,
                **kwargs) -> Union[bytes, int]:
-        if stream:
+        if stream is not None:
             return 0
         return b''
 
-- 
2.43.0


From b5df0a5203f2a4e834141168429b88124152720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 65/67] fix: paths with braces in them were taken for module
 references

---
 ebmlite/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index c3de8d8..8c7cdca 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1556,18 +1556,18 @@ def _expandSchemaPath(path: Union[str, Path, types.ModuleType],
 
     if not strpath:
         path = strpath = os.getcwd()
-    elif '{' in strpath:
+    elif strpath.lstrip().startswith('{'):
         if '}' not in strpath:
             raise IOError(errno.ENOENT, 'Malformed module path', strpath)
 
-        m = re.match(r'(\{.+})[/\\](.+)', strpath)
+        m = re.match(r'(\{[^}]+})[/\\](.+)', strpath)
         if m:
             path, subdir = m.groups()
             strpath = path
 
     if isinstance(path, types.ModuleType):
         return importlib_resources.files(path) / subdir / name
-    elif '{' in strpath:
+    elif strpath.lstrip().startswith('{'):
         return importlib_resources.files(strpath.strip('{} ')) / subdir / name
 
     return Path(path) / subdir / name
-- 
2.43.0


From 136e07fd2f648bddb8a490b26d7ae12888b9d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 66/67] fix: Void lost its documentation, length and precache,
 and its type if added later

---
 ebmlite/core.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 8c7cdca..d9fefbe 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1172,16 +1172,6 @@ class Schema(object):
             raise IOError("Could not parse schema; expected root element "
                           "<Schema> or <table>, got <%s>" % root.tag)
 
-        # Special case: `Void` is a standard EBML element, but not its own
-        # type (it's technically binary). Use the special `VoidElement` type.
-        if 'Void' in self.elementsByName:
-            el = self.elementsByName['Void']
-            void = type('VoidElement', (VoidElement,),
-                        {'id': el.id, 'name': 'Void', 'schema': self,
-                         'mandatory': el.mandatory, 'multiple': el.multiple})
-            self.elements[el.id] = void
-            self.elementsByName['Void'] = void
-
         # Schema name. Defaults to the schema's default EBML 'DocType'
         self.name = name or self.type
         if not self.name and self.filename:
@@ -1307,7 +1297,7 @@ class Schema(object):
             eid = oldEl.id
 
             # The exact type: some of the types are subclasses of others. (`Void`
-            # is defined as binary, its special type is set afterwards.)
+            # is defined as binary, but has a special type.)
             oldBase = oldEl.__base__
             if baseClass is not (BinaryElement if oldBase is VoidElement else oldBase):
                 raise TypeError('%s %r (ID 0x%02X) redefined as %s' %
@@ -1355,6 +1345,11 @@ class Schema(object):
                 # reading `level` if `global` isn't defined.
                 isGlobal = _getInt(attribs, 'level', None) == -1
 
+            if ename == 'Void' and baseClass is BinaryElement:
+                # Special case: `Void` is a standard EBML element, but not its
+                # own type (it's technically binary). Use the special type.
+                baseClass = VoidElement
+
             # Create a new Element subclass
             eclass = type('%sElement' % ename, (baseClass,),
                           {'id': eid, 'name': ename, 'schema': self,
-- 
2.43.0


From 3198acdaea9445abac097f1780a8836faa21a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:58 +0000
Subject: [PATCH 67/67] fix: a file that is not seekable was left open when it
 could not be loaded

---
 ebmlite/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index d9fefbe..7f4d2e7 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -846,6 +846,10 @@ class Document(MasterElement):
         if isinstance(stream, (str, Path)):
             stream = open(stream, 'rb')
             self._ownsStream = True
+            if not stream.seekable():
+                # A named pipe, terminal, etc.
+                stream.close()
+                raise IOError(errno.ESPIPE, 'File is not seekable', stream.name)
 
         if not all((hasattr(stream, 'read'),
                     hasattr(stream, 'tell'),
-- 
2.43.0

