From b742056a3cbddf617580f53763469456fe0452eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 001/108] fix: float64 fields get a float default and keep a
 given one

The shared type used the integer 0, which its own validation rejects, and an
explicit default was replaced by 0.0.
---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b1bb0af..322d9c9 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1068,7 +1068,7 @@ class DataTypeNoderefList(DataType):
 
 class DataTypes:
     """Layer field type factory"""
-    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
+    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0.0)
     _float64_raw = DataTypeFloat(DataTypeEnum.F64)
     _int32 = DataTypeInt32(DataTypeEnum.I32, default=0)
     _int32_raw = DataTypeInt32(DataTypeEnum.I32)
@@ -1105,7 +1105,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._float64_raw
         else:
-            return DataTypeFloat(DataTypeEnum.F64, default=0.0)
+            return DataTypeFloat(DataTypeEnum.F64, default=default)
 
     @staticmethod
     def string(default: Optional[str] = ""):
-- 
2.43.0


From a2c27396458d1abdd0566796304d9b1cbda5a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 002/108] fix: bool and string types with a default validate
 their values

DataTypes.bool() and DataTypes.string(default) returned the generic DataType,
which accepts any value.
---
 py/docria/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 322d9c9..db20c5b 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1114,16 +1114,16 @@ class DataTypes:
         elif default is None:
             return DataTypes._string_raw
         else:
-            return DataType(DataTypeEnum.STRING, default=default)
+            return DataTypeString(DataTypeEnum.STRING, default=default)
 
     @staticmethod
     def bool(default: Optional[bool] = False):
-        if default == "":
-            return DataTypes._string
-        elif default is None:
+        if default is None:
             return DataTypes._bool_raw
+        elif not default:
+            return DataTypes._bool
         else:
-            return DataType(DataTypeEnum.BOOL, default=default)
+            return DataTypeBool(DataTypeEnum.BOOL, default=default)
 
     boolean = bool
 
-- 
2.43.0


From 84be69f5017e2d15c680b428ac40eded4ebc53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 003/108] fix: trim text spans at both ends

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index db20c5b..777849d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -685,7 +685,7 @@ class TextSpan:
                     break
 
                 new_start += 1
-        elif str.isspace(self.text.text[self.stop - 1]):
+        if str.isspace(self.text.text[self.stop - 1]):
             # move backward
             for i in range(len(self) - 1, -1, -1):
                 if not str.isspace(self.text.text[new_stop - 1]):
-- 
2.43.0


From 39f77e93936952de113fe8aea026a46c03924a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 004/108] fix: indexing a text span outside of it raises
 IndexError

It returned a character after (or the first character of) the span.
---
 py/docria/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 777849d..f2bec00 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -619,8 +619,7 @@ class TextSpan:
         elif isinstance(indx, tuple) and len(indx) == 2:
             return self.text[indx[0] + self.start:indx[1] + self.start]
         elif isinstance(indx, int):
-            start, stop, step = slice(indx, indx + 1).indices(len(self))
-            return self.text.text[start + self.start]
+            return str(self)[indx]
         else:
             raise ValueError("Unsupported input indx: %s" % repr(indx))
 
-- 
2.43.0


From e02742a8dcb5f474cc0f3ebcbe8330f010fa48a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 005/108] fix: retain works with gaps and leaves the layer
 intact when refused

A layer with removed nodes raised AttributeError, and a node of another layer
in the list left the already marked nodes with negative ids.
---
 py/docria/model.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index f2bec00..a78a6ad 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1589,23 +1589,25 @@ class NodeLayerCollection(NodeCollection):
         """Retain all nodes in the given list nodes, remove everything else."""
 
         try:
-            for n in iter(nodes):
-                # Mark the nodes to retain
-                if n.collection is not self:
-                    raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
-
-                # Guards against more than one reference to a node in nodes
-                if n._id >= 0:
-                    n._id = -(n._id + 1)  # add 1, otherwise zero fails.
-
+            nodes = list(nodes)
         except TypeError:
             raise ValueError("Given nodes is not iterable.")
 
-        # Compact and remove unmarked nodes
+        for n in nodes:
+            if not isinstance(n, Node) or n.collection is not self:
+                raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
+
+        # Set guards against more than one reference to a node in nodes
+        retained = set(nodes)
+
+        # Compact and remove all other nodes
         k = 0
         for i in range(len(self._nodes)):
             n = self._nodes[i]
-            if n._id >= 0:
+            if n is None:
+                continue
+
+            if n not in retained:
                 n.collection = None
                 self.num -= 1
             else:
-- 
2.43.0


From d6ccae10feea400300edd2281fb294adc7bf90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 006/108] fix: nodes that are not attached can be printed and
 validated

---
 py/docria/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index a78a6ad..a98ae45 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -128,6 +128,12 @@ class Node(dict):
 
         :return: true if valid
         """
+        if self.collection is None:
+            if noexcept:
+                return False
+
+            raise DataValidationError("Node is not attached to any layer: %s" % repr(self))
+
         if noexcept:
             try:
                 return self.collection.validate(self)
@@ -179,7 +185,7 @@ class Node(dict):
     def _table_repr_(self):
         from docria.printout import Table, get_representation
         tbl = Table(hide_index=True,
-                    caption="Node %s#%d" % (self.collection.schema.name, self._id) if len(self) > 0 else "")
+                    caption="Node %s#%d" % (self._layer_name(), self._id) if len(self) > 0 else "")
 
         tbl.set_header("field", "value")
 
@@ -193,7 +199,10 @@ class Node(dict):
         return tbl.render_html()
 
     def __repr__(self):
-        return "Node<%s#%d>" % (self.collection.schema.name, self._id) if len(self) > 0 else ""
+        return "Node<%s#%d>" % (self._layer_name(), self._id) if len(self) > 0 else ""
+
+    def _layer_name(self) -> str:
+        return self.collection.schema.name if self.collection is not None else "(detached)"
 
 
 class NodeCollection(Sized):
-- 
2.43.0


From b960e6b881f4d7645ed2f8b9cf1c6d320888489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 007/108] fix: a value of the wrong kind in a reference field
 is invalid, not a crash

---
 py/docria/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index a98ae45..063a501 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1071,7 +1071,8 @@ class DataTypeNoderefList(DataType):
     def is_valid(self, value) -> bool:
         target_layer = self.options["layer"]
         return (isinstance(value, list) or isinstance(value, NodeCollection)) and \
-               all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
+               all(map(lambda n: isinstance(n, Node) and
+                                 n.collection is not None and n.collection.name == target_layer, value))
 
 
 class DataTypes:
@@ -1385,6 +1386,9 @@ class NodeLayerCollection(NodeCollection):
                 fieldvalue = node[field]
                 if not node.collection.fieldtypes[field].is_valid(fieldvalue):
                     if fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                        assert isinstance(fieldvalue, NodeSpan), \
+                            "Not a node span: " \
+                            "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.left is not None, \
                             "Left node is None: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
@@ -1410,6 +1414,9 @@ class NodeLayerCollection(NodeCollection):
                             "field '%s' in layer '%s' for node %s" % \
                             (fieldvalue.left.i, fieldvalue.right.i, field, self.name, repr(node))
                     elif fieldtype.typename == DataTypeEnum.NODEREF:
+                        assert isinstance(fieldvalue, Node), \
+                            "Not a node: " \
+                            "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.collection is not None, \
                             "Node is removed: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
@@ -1418,7 +1425,7 @@ class NodeLayerCollection(NodeCollection):
                             "field '%s' in layer '%s' for node %s" \
                             % (fieldtype.options["layer"], field, self.name, repr(node))
                     elif fieldtype.typename == DataTypeEnum.NODEREF_MANY:
-                        assert isinstance(fieldvalue, list), "Not a node list: " \
+                        assert isinstance(fieldvalue, (list, NodeCollection)), "Not a node list: " \
                                                              "field '%s' in layer '%s' for node %s" % (
                                                              field, self.name, repr(node))
                         for n in fieldvalue:
-- 
2.43.0


From cd41a1fecb14823edb297ccb55b6fb56f654a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 008/108] fix: adding an attached node is refused instead of
 corrupting its layer

---
 py/docria/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 063a501..b6c40d4 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1475,6 +1475,9 @@ class NodeLayerCollection(NodeCollection):
         if len(args) > 0:
             for n in args:
                 if isinstance(n, Node):
+                    if n.collection is not None:
+                        raise ValueError("Node is already bound to a collection: %s" % repr(n))
+
                     n._id = len(self._nodes)
                     n.collection = self
                     self._nodes.append(n)
-- 
2.43.0


From fe5d9d6db72d914c101a7289028ce4cb141fd4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 009/108] fix: add_many validates nodes given as an iterator

---
 py/docria/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index b6c40d4..977fa0a 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1507,6 +1507,7 @@ class NodeLayerCollection(NodeCollection):
         Internal references between nodes in the nodes input is allowed.
         """
         start_pos = len(self._nodes)
+        nodes = list(nodes)
         for node in nodes:
             assert isinstance(node, Node), "Got a node which is not a Node: %s" % repr(node)
             assert node.collection is None, "Node is already bound to a collection: %s" % repr(node.collection)
-- 
2.43.0


From 79c974298d7202afb0f3994a40f0df5a8b4d90bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 010/108] fix: add_field refuses a duplicate properly and takes
 type factories

---
 py/docria/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 977fa0a..9eea59a 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1332,8 +1332,9 @@ class NodeLayerCollection(NodeCollection):
         :raises SchemaValidationError if the field conflicts with existing field
         """
         if name in self._schema.fields:
-            raise SchemaValidationError("Cannot add field %s, it already exists!" % name)
+            raise SchemaValidationError("Cannot add field %s, it already exists!" % name, {name})
 
+        dtype = dtype() if callable(dtype) else dtype
         self._schema.add(name, dtype)
         self._update_default_values()
 
-- 
2.43.0


From 379fb62279a5b3a6f298534eefe9faece047756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 011/108] fix: remove_layer cascades, sees node spans and
 reports removal

---
 py/docria/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 9eea59a..1b64ca1 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1872,7 +1872,7 @@ class Document:
         for k, v in self.layers.items():
             if k != name:
                 for fk, fv in v.schema.fields.items():
-                    if fv.typename == DataTypeEnum.NODEREF or fv.typename == DataTypeEnum.NODEREF_MANY:
+                    if fv.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
                         if fv.options["layer"] == name:
                             referencing_layer_field.setdefault(k, []).append(fk)
 
@@ -1885,7 +1885,12 @@ class Document:
             raise DataValidationError("Attempting to remove layer %s, but is referenced from layer(s)+field(s): %s"
                                       % (name, layer_field_names))
 
+        for layer, fields in referencing_layer_field.items():
+            for field in fields:
+                self.layers[layer].remove_field(field)
+
         del self.layers[name]
+        return True
 
     def __repr__(self):
         return "Document(%d layers, %d texts%s)" % (
-- 
2.43.0


From 528c1f12d7485cd5818b9e845e5ccadf696f056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 012/108] fix: tolerating extra fields no longer disables type
 validation

---
 py/docria/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1b64ca1..e61b7a1 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -2009,9 +2009,10 @@ class Document:
             validate_fn = v.validate
 
             # Validate nodes
-            if type_validation and not extra_fields_ok:
+            if type_validation or not extra_fields_ok:
                 for n in v:
-                    validate_fn(n)
+                    if type_validation:
+                        validate_fn(n)
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From 1b46c9d1671b109910832d78a33ecd1c9badf124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 013/108] fix: references and spans into another document are
 refused when encoding

---
 py/docria/model.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index e61b7a1..980d95c 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1961,6 +1961,32 @@ class Document:
     def __contains__(self, item):
         return item in self._layers
 
+    def _verify_references(self, layer: "NodeLayerCollection"):
+        """Verify that all references and spans of a layer lead into this document, names alone do not tell."""
+        for field, fieldtype in layer.schema.fields.items():
+            if fieldtype.typename == DataTypeEnum.SPAN:
+                text = self.texts[fieldtype.options["context"]]
+                for span in (n[field] for n in layer if field in n):
+                    if (span.text is not text and span.text.text != text.text) or \
+                            not 0 <= span.start <= span.stop <= len(text.text):
+                        raise DataValidationError("Field '%s' in layer '%s' has a span which is not "
+                                                  "within the text '%s' of this document: %s"
+                                                  % (field, layer.name, text.name, repr(span)))
+            elif fieldtype.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
+                target = self.layers[fieldtype.options["layer"]]
+                for value in (n[field] for n in layer if field in n):
+                    if fieldtype.typename == DataTypeEnum.NODEREF:
+                        nodes = (value,)
+                    elif fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                        nodes = (value.left, value.right)
+                    else:
+                        nodes = value
+
+                    if any(ref.collection is not target for ref in nodes):
+                        raise DataValidationError("Field '%s' in layer '%s' refers to a node which is not "
+                                                  "in the layer '%s' of this document"
+                                                  % (field, layer.name, target.name))
+
     def compile(self, extra_fields_ok=False, type_validation=True, **kwargs) -> \
             Dict[str, Tuple[Dict[int, int], List[int]]]:
         """Compile the document, validates and assigns compacted ids to nodes (internal use)
@@ -2020,6 +2046,9 @@ class Document:
                                 k, ", ".join(set(n.keys()).difference(fieldkeys))), set(n.keys())
                         )
 
+            if type_validation:
+                self._verify_references(v)
+
             # Collect span offsets
             for field, fieldtype in fieldtypes.items():
                 if fieldtype.typename == DataTypeEnum.SPAN:
-- 
2.43.0


From 71c14a7c18d9d5a4aede8d20d2c25cde52ac478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 014/108] fix: documents with extension fields can be encoded
 and decoded

---
 py/docria/codec.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5293445..5969ddf 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -43,6 +43,20 @@ def _codec_encode_span(offset_mapping: Dict[int, int]):
     return encoder
 
 
+def _codec_encode_ext(typename: str):
+    def encoder(l, v):
+        if v is None or isinstance(v, bytes):
+            l.append(v)
+        elif isinstance(v, Document) and typename == "doc":
+            l.append(MsgpackCodec.encode(v))
+        elif isinstance(v, ExtData) and v.type == typename:
+            l.append(v.encode())
+        else:
+            raise ValueError("Incorrect value for extension type %s: %s" % (typename, repr(v)))
+
+    return encoder
+
+
 class Codec:
     """Utility methods for all codecs"""
     encoders = {
@@ -55,7 +69,8 @@ class Codec:
         DataTypeEnum.NODEREF: lambda l, v: l.append(None if v is None else v.i),
         DataTypeEnum.NODEREF_MANY: lambda l, v: l.append(None if v is None or len(v) == 0 else [n.i for n in v]),
         DataTypeEnum.NODEREF_SPAN: lambda l, v: l.append(None if v is None else [v.left.i, v.right.i - v.left.i]),
-        DataTypeEnum.SPAN: _codec_encode_span
+        DataTypeEnum.SPAN: _codec_encode_span,
+        DataTypeEnum.EXT: _codec_encode_ext
     }
 
     @staticmethod
@@ -82,19 +97,9 @@ class Codec:
                 propvalues = []
                 encoder = Codec.encoders[fieldtype.typename]
                 if fieldtype.typename == DataTypeEnum.EXT:
+                    encoder = encoder(fieldtype.options["type"])
                     for n in v:
-                        extv = node_getter(n, field, None)
-                        if extv is not None:
-                            if isinstance(extv, bytes):
-                                propvalues.append(extv)
-                            elif isinstance(extv, ExtData):
-                                propvalues.append(extv.encode())
-                            else:
-                                raise ValueError("Incorrect value.")
-                        else:
-                            propvalues.append(None)
-
-                        propvalues.append(None if extv is None else extv.encode())
+                        encoder(propvalues, node_getter(n, field, None))
                 elif fieldtype.typename == DataTypeEnum.SPAN:
                     encoder = encoder(offset_mapping[fieldtype.options["context"]][0])
                     for n in v:
@@ -789,7 +794,7 @@ class MsgpackCodec:
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = extdata(v.data)
+                            n[col] = extdata(v)
 
                 def span_field(text, offsets):
                     nonlocal nodes
-- 
2.43.0


From 317bc3f0cd55f600abbe5794bbeef610d485c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 015/108] fix: decoded documents validate their fields like the
 original

---
 py/docria/codec.py | 11 ++++++-----
 py/docria/model.py | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5969ddf..6af33ab 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -15,7 +15,8 @@
 # limitations under the License.
 #
 """Codecs, encoding/decoding documents to/from binary or text representations"""
-from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan
+from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan, \
+    datatype_from_name
 import msgpack
 import json
 import logging
@@ -226,10 +227,10 @@ class JsonCodec:
                 if isinstance(typedef, dict): # Advanced type
                     ttype = String2DataType[typedef["type"]]
                     args = typedef["args"]
-                    fields.append((fieldname, DataType(ttype, **args)))
+                    fields.append((fieldname, datatype_from_name(ttype, **args)))
                 elif isinstance(typedef, str): # Simple type
                     ttype = String2DataType[typedef]
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, datatype_from_name(ttype)))
                 else:
                     raise DataError("Could not decode layer %s field types, " \
                                     "failed on field %s. Got data: %s" % (typename, fieldname, repr(typedef)))
@@ -710,9 +711,9 @@ class MsgpackCodec:
 
                 if has_args:
                     fieldargs = next(unpacker)
-                    fields.append((fieldname, DataType(ttype, **fieldargs)))
+                    fields.append((fieldname, datatype_from_name(ttype, **fieldargs)))
                 else:
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, datatype_from_name(ttype)))
 
                 nl.add(fieldname, fields[-1][1])
 
diff --git a/py/docria/model.py b/py/docria/model.py
index 980d95c..6d80dde 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1075,6 +1075,25 @@ class DataTypeNoderefList(DataType):
                                  n.collection is not None and n.collection.name == target_layer, value))
 
 
+_DataType2Class = {
+    DataTypeEnum.I32: DataTypeInt32,
+    DataTypeEnum.I64: DataTypeInt64,
+    DataTypeEnum.F64: DataTypeFloat,
+    DataTypeEnum.BOOL: DataTypeBool,
+    DataTypeEnum.STRING: DataTypeString,
+    DataTypeEnum.BINARY: DataTypeBinary,
+    DataTypeEnum.NODEREF: DataTypeNoderef,
+    DataTypeEnum.NODEREF_MANY: DataTypeNoderefList,
+    DataTypeEnum.SPAN: DataTypeTextspan,
+    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan
+}
+
+
+def datatype_from_name(typename: DataTypeEnum, **options) -> DataType:
+    """Construct the validating data type for a type name, used by codecs"""
+    return _DataType2Class.get(typename, DataType)(typename, **options)
+
+
 class DataTypes:
     """Layer field type factory"""
     _float64 = DataTypeFloat(DataTypeEnum.F64, default=0.0)
-- 
2.43.0


From 546f761d9bf7c45f8e3f853f626e67c51c5eb813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 016/108] fix: selected texts of an encoded document are
 returned

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 6af33ab..c290dc9 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -726,9 +726,9 @@ class MsgpackCodec:
         if len(texts) == 0:
             return next(unpacker)
         else:
+            prop_keys = set(texts)
             texts = {}
 
-            prop_keys = set(texts)
             num_entries = unpacker.read_map_header()
             for i in range(num_entries):
                 k = next(unpacker)
-- 
2.43.0


From 0fc07bae57808c8ed987f1acd23c371e7110e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 017/108] fix: document() of an encoded document accepts a
 selection of layers

---
 py/docria/codec.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index c290dc9..e3eabf8 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -150,7 +150,12 @@ class Codec:
         # Post-process layers
         for typename in types:
             for col, typedef in schema[typename]:
-                if typedef.typename == DataTypeEnum.NODEREF:
+                if typedef.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN} \
+                        and typedef.options["layer"] not in all_nodes:
+                    # The target layer was not requested, leave the reference unset.
+                    for n in all_nodes[typename]:
+                        n.pop(col, None)
+                elif typedef.typename == DataTypeEnum.NODEREF:
 
                     # Replace int placeholds with an actual node reference.
                     target_type = typedef.options["layer"]
@@ -492,7 +497,7 @@ class MsgpackDocument:
         text2offsets = MsgpackCodec.compute_text_offsets(doc, texts)
 
         # -- Parse layers
-        layer_set = types if len(layers) == 0 else list(layers)
+        layer_set = types if len(layers) == 0 else list(dict.fromkeys(layers))
         all_nodes = {}
         for typename in layer_set:
             self.rawdata.seek(self._layers[typename][0])
@@ -503,7 +508,7 @@ class MsgpackDocument:
             layerschema = schema[typename]
             all_nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, text2offsets, layerschema, **kwargs)
 
-        Codec.commit_layers(doc, types, schema, all_nodes)
+        Codec.commit_layers(doc, layer_set, schema, all_nodes)
         return doc
 
 
-- 
2.43.0


From d7d35297260ca1671b39d958b613349d7c1cd9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 018/108] fix: bytes in document properties survive encoding

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index e3eabf8..36483e0 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -621,7 +621,7 @@ class MsgpackCodec:
         out_props = BytesIO()
 
         # TODO: Implement extension handling!
-        msgpack.pack(doc.props, out_props)
+        msgpack.pack(doc.props, out_props, use_bin_type=True)
 
         msgpack.pack(out_props.tell(), output)
         output.write(out_props.getbuffer()[0:out_props.tell()])
-- 
2.43.0


From dd32aca58ad980454f4ba17d81cfd65e47bc700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 019/108] fix: encoded documents keep their reference when
 pickled

---
 py/docria/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 36483e0..f8a57b7 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -409,6 +409,7 @@ class MsgpackDocument:
         return {"doc": self.rawdata.getvalue(), "ref": self.ref}
 
     def __setstate__(self, state):
+        self.ref = state["ref"]
         self.rawdata = BytesIO(state["doc"])
         if self.rawdata.read(4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
-- 
2.43.0


From 0652483be7bacbe7bf6e556cb03b217d64f3e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 020/108] fix: encoded documents backed by a file can be
 copied, pickled and written

---
 py/docria/codec.py      | 8 ++++++--
 py/docria/collection.py | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index f8a57b7..a87c8be 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -406,7 +406,7 @@ class MsgpackDocument:
         self._layers = None
 
     def __getstate__(self):
-        return {"doc": self.rawdata.getvalue(), "ref": self.ref}
+        return {"doc": self.binary(), "ref": self.ref}
 
     def __setstate__(self, state):
         self.ref = state["ref"]
@@ -460,7 +460,11 @@ class MsgpackDocument:
 
     def binary(self)->bytes:
         """Get this document as binary value"""
-        return self.rawdata.getvalue()
+        if isinstance(self.rawdata, BytesIO):
+            return self.rawdata.getvalue()
+
+        self.rawdata.seek(0)
+        return self.rawdata.read()
 
     def properties(self, *props):
         """Get document properties"""
diff --git a/py/docria/collection.py b/py/docria/collection.py
index e30fe31..e784659 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -496,7 +496,7 @@ class MsgpackDocumentWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc, **kwargs)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
@@ -612,7 +612,7 @@ class TarMsgpackWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
-- 
2.43.0


From 0440f22edfdb451e02aca17377379c042a3c7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 021/108] fix: children over several fields are those of the
 given node

---
 py/docria/algorithm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index a9e1a36..1dd02e6 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -61,9 +61,9 @@ def children_of(layer: NodeLayerCollection, *props):
 
     def compose(yielders):
         def yielder(n: Node):
-            for yielder in yielders:
-                for n in yielder(n):
-                    yield n
+            for children in yielders:
+                for child in children(n):
+                    yield child
 
         return yielder
 
-- 
2.43.0


From a02506d3bcab5280d8ddc837a1415f6d2fee2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 022/108] fix: dfs_leaves only reports nodes without outgoing
 links

---
 py/docria/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 1dd02e6..674aa28 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -183,7 +183,7 @@ def dfs_leaves(start: Node,
 
         visited.add(current)
 
-        child_nodes = [ch for ch in children(current) if ch not in visited]
+        child_nodes = list(children(current))
         child_nodes.reverse()
 
         if not child_nodes and is_result and is_result(current):
-- 
2.43.0


From e2d06c749627568ab97d5bf849dedf79554863b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 023/108] fix: group_by_span ignores nodes whose span is None

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 674aa28..e7a3440 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -320,7 +320,7 @@ def group_by_span(group_nodes: List[Node],
 
     # 1. Convert all nodes to Start, Stop symbols with added context information
     for group_node in group_nodes:
-        if group_span_field in group_node:
+        if group_node.get(group_span_field) is not None:
             span = group_node[group_span_field]  # type: TextSpan
 
             if span.start == span.stop:
@@ -338,7 +338,7 @@ def group_by_span(group_nodes: List[Node],
             raise KeyError("Could not find span property name for layer: %s" % layer_name) from e
 
         for layer_node in layer:
-            if span_name in layer_node:
+            if layer_node.get(span_name) is not None:
                 span = layer_node[span_name]  # type: TextSpan
 
                 if span.start == span.stop:
-- 
2.43.0


From 7c42c103d7ce16b121a0c746e59aa1bac86de5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 024/108] fix: booleans are boolean fields in node lists

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6d80dde..d3d5d59 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1205,6 +1205,8 @@ class DataTypes:
     def typeof(o, comparetype: "DataType" = None) -> DataType:
         if isinstance(o, str):
             return DataTypes.string()
+        elif isinstance(o, bool):
+            return DataTypes.bool()
         elif isinstance(o, int):
             if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                 if -0x80000000 <= o <= 0x7FFFFFFF:
@@ -1215,8 +1217,6 @@ class DataTypes:
                 return DataTypes.int64()
         elif isinstance(o, float):
             return DataTypes.float64()
-        elif isinstance(o, bool):
-            return DataTypes.bool()
         elif isinstance(o, bytes):
             return DataTypes.binary
         elif isinstance(o, TextSpan):
-- 
2.43.0


From 218b605ca8df697e575d2fb29e9b0a3de3a5076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 025/108] fix: node lists expose fields of merged numeric types

---
 py/docria/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index d3d5d59..6dcb24e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -512,6 +512,8 @@ class NodeList(list, NodeCollection):
                                                  (repr(resolved_type), repr(el), fld, repr(self)))
                             else:
                                 resolved_type = resolved_type.cast_up(el)
+
+                        output_types[fld] = resolved_type
                 else:
                     output_types[fld] = next(iter(dtypes))
 
-- 
2.43.0


From 9ec401c369cf781c6fffcfe8a593c89e23913d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 026/108] fix: node lists accept detached nodes with references
 and extension values

---
 py/docria/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6dcb24e..120eae3 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1224,9 +1224,15 @@ class DataTypes:
         elif isinstance(o, TextSpan):
             return o.text.spantype
         elif isinstance(o, NodeSpan):
+            if o.left.collection is None:
+                return DataType(DataTypeEnum.NODEREF_SPAN)  # Detached, target layer is unknown
             return DataTypes.nodespan(o.left.collection.name)
         elif isinstance(o, Node):
+            if o.collection is None:
+                return DataType(DataTypeEnum.NODEREF)  # Detached, target layer is unknown
             return o.collection.nodetype
+        elif isinstance(o, ExtData):
+            return DataTypes.ext(o.type)
         elif isinstance(o, list):
             if len(o) > 0 and not isinstance(o[0], Node):
                 raise ValueError("Unsupported type: %s" % type(o))
@@ -1237,6 +1243,8 @@ class DataTypes:
             else:
                 layer = o[0].collection
                 if sum(1 for n in o if isinstance(n, Node) and n.collection is layer) == len(o):
+                    if layer is None:
+                        return DataType(DataTypeEnum.NODEREF_MANY)  # Detached, target layer is unknown
                     return DataTypes.noderef_many(layer.name)
                 else:
                     raise ValueError("Unsupported type: %s" % type(o))
-- 
2.43.0


From dacd06f55a241dafc1f5966cabb87e8e58146291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 027/108] fix: queries over queries, lists and node spans

---
 py/docria/model.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 120eae3..a2f8c60 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1302,17 +1302,15 @@ class NodeCollectionQuery(NodeCollection):
         return len(self.result)
 
     def __getitem__(self, item):
-        if isinstance(item, str):
-            if item in self.collection.schema.fields:
-                return NodeFieldCollection(self, item)
-        else:
-            return super().__getitem__(item)
+        return super().__getitem__(item)
 
     def update(self):
         self.result = [n for n in self.collection if self.predicate(n)]
 
     def __repr__(self):
-        return "NodeCollectionQuery(collection=%s, N=%d)" % (self.collection.name, len(self))
+        return "NodeCollectionQuery(collection=%s, N=%d)" % (
+            getattr(self.collection, "name", type(self.collection).__name__), len(self)
+        )
 
     def _repr_html_(self):
         return self._table_repr_("Query with %d nodes.").render_html()
-- 
2.43.0


From 06bfd4f0d2daeb1d70e532daf2f7015952b747b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 028/108] fix: XML export keeps characters beyond the basic
 plane

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index a87c8be..1a7fe2a 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -903,7 +903,7 @@ class MsgpackCodec:
 
 class XmlCodec:
     """XML Codec, only encoding support"""
-    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\u10000-\u10FFFF]", re.UNICODE)
+    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]", re.UNICODE)
 
     @staticmethod
     def _string_encoder(s, repl=" "):
-- 
2.43.0


From d1a05105f6f03985359204d811e471925dfe6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 029/108] fix: XML export supports binary and extension fields

---
 py/docria/codec.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 1a7fe2a..2df7ca1 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -918,7 +918,7 @@ class XmlCodec:
         DataTypeEnum.F64: lambda v: str(float(v)),
         DataTypeEnum.BOOL: lambda v: str(bool(v)),
         DataTypeEnum.STRING: lambda v: XmlCodec._string_encoder(v),
-        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)),
+        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)).decode("ascii"),
         DataTypeEnum.NODEREF: lambda v: str(v._id),
         DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v],
         DataTypeEnum.NODEREF_SPAN: lambda v: v
@@ -929,11 +929,15 @@ class XmlCodec:
         extv = value
         if extv is not None:
             if isinstance(extv, bytes):
-                return extv
+                data = extv
             elif isinstance(extv, ExtData):
-                return extv.encode()
+                data = extv.encode()
+            elif isinstance(extv, Document):
+                data = MsgpackCodec.encode(extv)
             else:
                 raise ValueError("Incorrect value.")
+
+            return standard_b64encode(data).decode("ascii")
         else:
             return None
 
-- 
2.43.0


From a6bf4f5bfe4ab06382133ad0a0a4bd490c2276c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 030/108] fix: XML export with materialised node spans

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 2df7ca1..03578c6 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -1091,7 +1091,7 @@ class XmlCodec:
                                           })
                         )
                         if verbose_node_spans:
-                            text_entries[fk] = XmlCodec._string_encoder(fv)
+                            text_entries[fk] = XmlCodec._string_encoder(str(span))
                     elif isinstance(fv, NodeSpan):
                         embedded_entries.append(
                             ET.Element("d",
-- 
2.43.0


From 2971e0335ab44fee76fb2032bd88d805f42b1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 031/108] fix: XML export is well-formed for any text and
 property

---
 py/docria/codec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 03578c6..a8bac11 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -1121,5 +1121,10 @@ class XmlCodec:
                     for tk, tv in text_entries.items():
                         ET.SubElement(n_node, "t", {"key": tk, "value": tv})
 
+        # Characters which XML cannot represent might be present anywhere, e.g. texts and properties.
+        for element in root.iter():
+            for attribute, value in element.items():
+                element.set(attribute, XmlCodec._string_encoder(value))
+
         return root
 
-- 
2.43.0


From bd4cf6309eaac69042f720fe876bd6f3cb7abbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 032/108] fix: printing without a display width limit

---
 py/docria/printout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 9b5e048..96446e9 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -113,7 +113,10 @@ def truncate(text):
     if options.max_column_width is None:
         return text
     else:
-        min_sz = min(options._max_display_width-5, options.max_column_width-5)
+        min_sz = options.max_column_width-5
+        if options.max_display_width is not None:
+            min_sz = min(options.max_display_width-5, min_sz)
+
         if len(text) > min_sz:
             part = min_sz >> 1
             return "%s ... %s" % (text[0:part], text[-part:])
-- 
2.43.0


From af1b13f0e00accae399824bcadbb5d3d20a5be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 033/108] fix: max_columns option returns its own value

---
 py/docria/printout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 96446e9..5190d06 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -53,7 +53,7 @@ class PrintOptions:
     @property
     def max_columns(self):
         """Max number of columns to display"""
-        return self._max_rows
+        return self._max_columns
 
     @max_columns.setter
     def max_columns(self, max_columns):
-- 
2.43.0


From fcdad20765c85a9904df4a36d4ae7d660ba7de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 034/108] fix: wikipedia URN without title is shown as text

---
 py/docria/printout.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 5190d06..c977c32 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -152,6 +152,9 @@ def urn_link_wikidata(partial):
 
 def urn_link_wikipedia(partial):
     parts = partial.split(":", 1)
+    if len(parts) != 2:
+        return None
+
     return "https://{0}.wikipedia.org/wiki/{1}".format(escape(parts[0]), escape(parts[1]))
 
 
@@ -210,11 +213,9 @@ class Table:
                 if URN_MATCH.fullmatch(col) is not None:
                     parts = col.split(":", 2)
                     urn_type = parts[1].lower()
-                    if urn_type in URN_LINK_FN:
-                        output.append("<a href='{0}'>{1}</a>".format(
-                            URN_LINK_FN[urn_type](parts[2]), escape(truncate(str(col)))
-                            )
-                        )
+                    link = URN_LINK_FN[urn_type](parts[2]) if urn_type in URN_LINK_FN else None
+                    if link is not None:
+                        output.append("<a href='{0}'>{1}</a>".format(link, escape(truncate(str(col)))))
                         continue
 
             output.append(escape(truncate(str(col))))
-- 
2.43.0


From 597306f52f30ac7af629dc2c85ba2a15f4547eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 035/108] fix: text names are escaped in HTML

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index a2f8c60..1365a0e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -774,7 +774,7 @@ class Text:
 
     def _repr_html_(self):
         from html import escape
-        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(self.name, escape(self.text))
+        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(escape(self.name), escape(self.text))
 
     def compile(self, offsets: List[int]):
         """
-- 
2.43.0


From c4ab84099cb229a50e0530c6fc5fabed0f520be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 036/108] fix: lists of detached nodes can be printed

---
 py/docria/printout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index c977c32..ea1d8f2 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -384,7 +384,7 @@ def get_representation(value):
 
             for elem in value:
                 if isinstance(elem, Node):
-                    nodetypes.add(elem.collection.name)
+                    nodetypes.add(elem.collection.name if elem.collection is not None else "(detached)")
                 else:
                     all_nodes = False
                     break
-- 
2.43.0


From 76bdad06636d67f4c89ac09120c2ad2c82309e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 037/108] fix: layers with a percent sign in the name can be
 printed

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1365a0e..0a277b9 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1712,10 +1712,10 @@ class NodeLayerCollection(NodeCollection):
         return "Layer(%s, N=%d)" % (self.name, self.num)
 
     def _repr_html_(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_html()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_html()
 
     def __str__(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_text()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_text()
 
     def __len__(self):
         return self.num
-- 
2.43.0


From e059d183b2f127dfc4e29da422c4bfcee91c79c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 038/108] fix: reading boundary-framed streams across segments

---
 py/docria/collection.py | 61 +++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e784659..1d4a45c 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -39,7 +39,7 @@ def _module_available(name):
 
 
 class _BoundaryReader(RawIOBase):
-    """Note: Seek is not ready for prime time yet, unresolved bugs."""
+    """Reads the data of a boundary-framed stream, skipping the boundary markers."""
     def __init__(self, inputio):
         super().__init__()
 
@@ -48,7 +48,8 @@ class _BoundaryReader(RawIOBase):
         if self.boundary < 12 or self.boundary > 30:
             raise IOError("Incorrect boundary value: %d" % self.boundary)
 
-        self.offset = 0
+        self.offset = 0  # Offset in the unframed data
+        self.position = 1  # Position in the underlying stream
 
     def close(self):
         return self.inputio.close()
@@ -68,55 +69,43 @@ class _BoundaryReader(RawIOBase):
         if whence != SEEK_SET:
             raise NotImplementedError()
 
-        self.offset = offset
         abs_start_position = self._to_absolute(offset)
         pos = self.inputio.seek(abs_start_position, SEEK_SET)
         assert pos == abs_start_position
+        self.offset = offset
+        self.position = pos
         return offset
 
     def read(self, n=-1):
-        abs_start_position = ((self.offset + 1) >> self.boundary)*4+(self.offset + 1)
-        if n == -1:
-            alldata = self.inputio.read(n)
-            abs_stop_position = abs_start_position + len(alldata)
-        else:
-            abs_stop_position = ((self.offset + n + 1) >> self.boundary)*4+(self.offset + n + 1)
-            alldata = self.inputio.read(abs_stop_position-abs_start_position)
-            abs_stop_position = abs_start_position + len(alldata)
-
-        if len(alldata) == 0:
-            return alldata
-
-        if (abs_start_position >> self.boundary) << self.boundary == abs_start_position:
-            abs_start_position += 4
-
-        num_boundaries = (abs_stop_position >> self.boundary) - (abs_start_position >> self.boundary)
-        real_length = abs_stop_position-abs_start_position-num_boundaries*4
-
-        if (abs_stop_position >> self.boundary) << self.boundary == abs_stop_position:
-            real_length -= 4
+        boundary_val = 1 << self.boundary
+        output = bytearray()
 
-        output = bytearray(real_length)
+        while n is None or n < 0 or len(output) < n:
+            # Skip the boundary marker in front of the next byte, if any
+            start = self._to_absolute(self.offset)
+            while self.position < start:
+                marker = self.inputio.read(start - self.position)
+                if not marker:
+                    return bytes(output)
 
-        output_position = 0
-        rel_position = 0
-        current_position = abs_start_position
+                self.position += len(marker)
 
-        while current_position < abs_stop_position:
-            max_read = min(((current_position >> self.boundary) + 1) << self.boundary, abs_stop_position)-current_position
+            max_read = boundary_val - (start & (boundary_val - 1))
+            if n is not None and n >= 0:
+                max_read = min(max_read, n - len(output))
 
-            output[output_position:output_position+max_read] = alldata[rel_position:rel_position+max_read]
-            rel_position += 4 + max_read
-            current_position += max_read + 4
-            output_position += max_read
+            data = self.inputio.read(max_read)
+            if not data:
+                break
 
-        assert output_position == real_length
-        self.offset += real_length
+            output += data
+            self.position += len(data)
+            self.offset += len(data)
 
         return bytes(output)
 
     def tell(self):
-        return self.inputio.tell()-(self.inputio.tell() >> self.boundary)*4-1
+        return self.offset
 
     def readable(self):
         return True
-- 
2.43.0


From dd88b4876cf98f2c00aad2e360cbe992b5e5e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:23 +0000
Subject: [PATCH 039/108] fix: an index finds its files relative to its base
 path

---
 py/docria/collection.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 1d4a45c..fa79467 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -694,10 +694,12 @@ class DocumentFileIndex:
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
-    def search(self, conds, lazy=False):
+    def search(self, conds, lazy=False, basepath=None):
         if len(conds) == 0:
             return
 
+        filepath = self.filepath if basepath is None else os.path.join(basepath, self.filepath)
+
         all_hits = []
         for k, v in dict(conds).items():
             all_hits.append(set(self.properties.get(k, {}).get(v, [])))
@@ -709,7 +711,7 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(self.filepath)
+            reader = MsgpackDocumentIO.read(filepath)
             lastblk = None
 
             # Optimized reading if multiple hits exist within a block sequentially
@@ -730,7 +732,7 @@ class DocumentFileIndex:
                         yield MsgpackCodec.decode(next(lastblk._unpacker))
                 except Exception as e:
                     raise IOError("Failed to read document in %s "
-                                  "for ref %d, %d" % (self.filepath, ref[0], ref[1])) from e
+                                  "for ref %d, %d" % (filepath, ref[0], ref[1])) from e
 
 
 class DocumentIndex:
@@ -745,7 +747,7 @@ class DocumentIndex:
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-            for doc in indx.search(conds, lazy=lazy):
+            for doc in indx.search(conds, lazy=lazy, basepath=self.basepath):
                 yield doc
 
     def save(self, path):
-- 
2.43.0


From e45b13bda42c263e4f93ed0e7cbd0101faefef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 040/108] fix: documents report the position of their own block

---
 py/docria/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index fa79467..11d94f4 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -387,7 +387,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
         while self.block is None:
             datablock = self.readblock()
@@ -400,7 +400,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
     def close(self):
         self.inputio.close()
-- 
2.43.0


From 98dd87d8edd6b0ace542e14ded77395037aae1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 041/108] fix: Java boundary markers after single byte writes
 are in place

---
 java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
index e6f2df1..e4da45e 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
@@ -65,7 +65,7 @@ public class BoundaryWriter extends OutputStream {
 
     @Override
     public void write(int b) throws IOException {
-        if(((written + 1) >> boundary) > seg) {
+        if((written >> boundary) > seg) {
             writeBoundary();
         }
 
-- 
2.43.0


From 71d644766671bbc55ec3db25158837127132c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 042/108] fix: Java boundary reader stays aligned when skipping

---
 .../src/main/java/se/lth/cs/docria/io/BoundaryReader.java    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
index eddb66d..bdfdd49 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
@@ -125,7 +125,10 @@ public class BoundaryReader extends InputStream {
         }
 
         long maxskip = Math.min(n, ((seg+1)<<boundary) - read);
-        return inputStream.skip(maxskip);
+        long skipped = inputStream.skip(maxskip);
+        this.read += skipped;
+
+        return skipped;
     }
 
     @Override
-- 
2.43.0


From 6684484e4b3db8db79900d376617aa365e48bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 043/108] fix: Java boundary reader ends at a stream ending on
 a boundary

---
 .../core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
index bdfdd49..0ea22fb 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
@@ -103,7 +103,8 @@ public class BoundaryReader extends InputStream {
 
             int maxread = (int)Math.min(left, ((seg+1)<<boundary) - read);
 
-            int read = inputStream.read(b, pos, maxread);
+            // Nothing left in the segment and no marker: the stream ended on the boundary
+            int read = maxread == 0 ? -1 : inputStream.read(b, pos, maxread);
             if(read >= 0) {
                 left -= read;
                 pos += read;
-- 
2.43.0


From 358450ff664e555174b1bfe72fff9828269ae981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 044/108] fix: a failing sort leaves the layer as it was

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 0a277b9..22b8f61 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1592,7 +1592,7 @@ class NodeLayerCollection(NodeCollection):
         :param keyfn: a function (input: Node) -> value to sort by.
         """
         self.compact()
-        self._nodes.sort(key=keyfn)
+        self._nodes = sorted(self._nodes, key=keyfn)
         for i, n in zip(range(len(self)), self):
             n._id = i
 
-- 
2.43.0


From e35674af42f1912fe67a159569e71d3fe1b244b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 045/108] fix: empty mappings do not open an interval in
 span_translate

---
 py/docria/algorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index e7a3440..664d17e 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -229,6 +229,9 @@ def span_translate(doc: Document,
         sourceStart = m[source_pos].start
         sourceStop  = m[source_pos].stop
 
+        if sourceStart == sourceStop:
+            continue  # Maps nothing
+
         mapping_in_source.append(((sourceStart, 0), (0, m)))
         mapping_in_source.append(((sourceStop, -1), (0, m)))
 
-- 
2.43.0


From 0dccb3dd9ef85e6adf6f7563c511a45c3c01760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 046/108] fix: sub-slicing a span by a tuple refuses offsets
 before the text

Negative offsets wrapped around to the end of the text.
---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 22b8f61..3d5b146 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -628,7 +628,7 @@ class TextSpan:
             start, stop, step = indx.indices(len(self))
             return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, tuple) and len(indx) == 2:
-            return self.text[indx[0] + self.start:indx[1] + self.start]
+            return self.text[(indx[0] + self.start, indx[1] + self.start)]
         elif isinstance(indx, int):
             return str(self)[indx]
         else:
-- 
2.43.0


From 3985b5723815806ec152f3f1be25086adf600acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 047/108] fix: collection reader accepts storage that returns
 the header in pieces

---
 py/docria/collection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 11d94f4..f3a9140 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -302,7 +302,14 @@ class MsgpackDocumentReader:
 
         self.inputio = inputio
         self.dataread = 4
-        header = self.inputio.read(4)
+        header = b""
+        while len(header) < 4:
+            data = self.inputio.read(4 - len(header))
+            if not data:
+                break
+
+            header += data
+
         if header != b"Dmf1":
             raise IOError("Header does not match expected format 'Dmf1', found: %s" % header.decode("latin1"))
 
-- 
2.43.0


From 7afd457272a8fcd715fbd191a2033eb46b23bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 048/108] fix: Java Layer.add after a removal overwrote a node
 that was still in the layer

The slot at index size() is only free when nothing was removed in front of it.
---
 java/core/src/main/java/se/lth/cs/docria/Layer.java | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index 1d8791e..debf300 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -171,16 +171,8 @@ public class Layer extends AbstractCollection<Node> {
 
         node.id = storage.size();
         node.layer = this;
-        if(this.size < storage.size()) {
-            storage.set(this.size, node);
-            this.size++;
-            return true;
-        }
-        else
-        {
-            this.size++;
-            return storage.add(node);
-        }
+        this.size++;
+        return storage.add(node);
     }
 
     @Override
-- 
2.43.0


From 5ce27d56ab41d8499f306912dcdf40aeea6257b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 049/108] fix: Java Layer.sort left the nodes with the ids of
 their old places

---
 java/core/src/main/java/se/lth/cs/docria/Layer.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index debf300..cb93c4b 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -143,6 +143,9 @@ public class Layer extends AbstractCollection<Node> {
     public Layer sort(Comparator<Node> comparator) {
         compact();
         storage.subList(0, size).sort(comparator);
+        for (int i = 0; i < size; i++) {
+            storage.get(i).id = i;
+        }
         return this;
     }
 
-- 
2.43.0


From 54cea949b8b6ce7a2efda3f2984bbde35b90c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 050/108] fix: Java Layer.clear failed on layers from which a
 node had been removed

---
 java/core/src/main/java/se/lth/cs/docria/Layer.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index cb93c4b..1ad1454 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -156,7 +156,7 @@ public class Layer extends AbstractCollection<Node> {
 
     @Override
     public void clear() {
-        for (Node node : storage) {
+        for (Node node : this) {
             node.layer = null;
             node.id = -1;
         }
-- 
2.43.0


From ffd253dd95eca76dda2fcadcf33a1516db9cfd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 051/108] fix: Java Layer.retainAll lost the node with id 0,
 ignored an empty collection and left removed nodes attached

---
 .../src/main/java/se/lth/cs/docria/Layer.java | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index 1ad1454..e55f53d 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -256,7 +256,7 @@ public class Layer extends AbstractCollection<Node> {
     public boolean retainAll(Collection<?> c) {
         Objects.requireNonNull(c);
 
-        boolean edited = false;
+        Set<Node> retained = Collections.newSetFromMap(new IdentityHashMap<>());
         for (Object o : c) {
             if(!(o instanceof Node))
                 throw new IllegalArgumentException("Collection must only contain nodes!");
@@ -265,27 +265,23 @@ public class Layer extends AbstractCollection<Node> {
             if(n.layer != this)
                 throw new IllegalArgumentException(String.format("Collection must only contain nodes bound to this layer: %s", name()));
 
-            n.id = -n.id;
-            edited = true;
+            retained.add(n);
         }
 
-        if(edited) {
-            for (int i = 0; i < this.storage.size(); i++) {
-                Node node = this.storage.get(i);
-                if (node != null) {
-                    if (node.id >= 0) {
-                        this.storage.set(i, null);
-                        this.size--;
-                    } else {
-                        node.id = -node.id;
-                    }
-                }
+        boolean edited = false;
+        for (int i = 0; i < this.storage.size(); i++) {
+            Node node = this.storage.get(i);
+            if (node != null && !retained.contains(node)) {
+                this.storage.set(i, null);
+                node.layer = null;
+                this.size--;
+                edited = true;
             }
-
-            if (this.size < 0.75 * storage.size() && storage.size() > 16)
-                compact();
         }
 
+        if (this.size < 0.75 * storage.size() && storage.size() > 16)
+            compact();
+
         return edited;
     }
 
-- 
2.43.0


From af21fb1c51aaf32351e44df39797c59766d01d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 052/108] fix: Java Document.remove(Text) did not remove the
 text

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index 3a45791..bcfb9c8 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -159,6 +159,7 @@ public class Document {
             }
         }
 
+        texts.remove(text.name(), text);
         return this;
     }
 
-- 
2.43.0


From 8a479c92f63cfe07da50bfa81fb80da7595714ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 053/108] fix: Java Document.remove(Layer) did not remove the
 layer, nor notice the fields that refer to it

---
 .../main/java/se/lth/cs/docria/Document.java  | 38 +++++++++++--------
 .../main/java/se/lth/cs/docria/Schema.java    |  4 ++
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index bcfb9c8..00c0d88 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -183,15 +183,15 @@ public class Document {
         if(layer == null)
             return this;
 
-        //1. Verify no layer contains fields referencing this text.
+        //1. Verify no other layer contains fields referencing this layer.
         List<Layer> layersWithReferentFields =
                 layers.values()
                       .stream()
-                      .filter(l -> l.schema()
-                                    .fields()
-                                    .values()
-                                    .stream()
-                                    .anyMatch(dt -> dt.name() == DataTypeName.SPAN && dt.args().get("context").stringValue().equals(layer.name()))
+                      .filter(l -> l != layer && l.schema()
+                                                  .fields()
+                                                  .values()
+                                                  .stream()
+                                                  .anyMatch(dt -> isReferenceTo(dt, layer))
                       ).collect(Collectors.toList());
 
         if(!fieldcascade && !layersWithReferentFields.isEmpty()) {
@@ -202,11 +202,7 @@ public class Document {
                                                                 .fields()
                                                                 .entrySet()
                                                                 .stream()
-                                                                .filter(e -> (e.getValue().name() == DataTypeName.NODE
-                                                                        || e.getValue().name() == DataTypeName.NODE_ARRAY)
-                                                                        && e.getValue().args()
-                                                                            .get("layer").stringValue()
-                                                                            .equals(layer.name()))
+                                                                .filter(e -> isReferenceTo(e.getValue(), layer))
                                                                 .map(Map.Entry::getKey)
                                                                 .collect(Collectors.joining(", "))
                                                              + ")")
@@ -223,11 +219,7 @@ public class Document {
                                                .fields()
                                                .entrySet()
                                                .stream()
-                                               .filter(e -> (e.getValue().name() == DataTypeName.NODE
-                                                       || e.getValue().name() == DataTypeName.NODE_ARRAY)
-                                                       && e.getValue().args()
-                                                           .get("layer").stringValue()
-                                                           .equals(layer.name()))
+                                               .filter(e -> isReferenceTo(e.getValue(), layer))
                                                .map(Map.Entry::getKey)
                                                .collect(Collectors.toList());
 
@@ -235,9 +227,23 @@ public class Document {
             }
         }
 
+        if(layers.remove(layer.name(), layer))
+            schema.remove(layer.name());
+
         return this;
     }
 
+    private static boolean isReferenceTo(DataType type, Layer layer) {
+        switch (type.name()) {
+            case NODE:
+            case NODE_ARRAY:
+            case NODE_SPAN:
+                return type.args().get("layer").stringValue().equals(layer.name());
+            default:
+                return false;
+        }
+    }
+
     /**
      * @deprecated use {@link #add(Schema.Layer)} with {@link Layer#create(String)}
      *
diff --git a/java/core/src/main/java/se/lth/cs/docria/Schema.java b/java/core/src/main/java/se/lth/cs/docria/Schema.java
index 7cc3d02..fbe3451 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Schema.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Schema.java
@@ -119,6 +119,10 @@ public class Schema {
         layerSchema.put(layer.name(), layer);
     }
 
+    public void remove(String name) {
+        layerSchema.remove(name);
+    }
+
     public Stream<Schema.Layer> layers() {
         return layerSchema.values().stream();
     }
-- 
2.43.0


From 8f16c61aff66ebeb9953076e901efb1cc9a32a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 054/108] fix: Java Document.add(Layer) did not add the layer
 to the schema

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index 00c0d88..3168350 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -68,6 +68,7 @@ public class Document {
         }
 
         layers.put(layer.name(), layer);
+        schema.add(layer.schema());
         return this;
     }
 
-- 
2.43.0


From 9b15b503ccfe9d6027b7b31d0ec7c2cd549bda15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 055/108] fix: Java schema validation overlooked node span
 fields to layers that do not exist

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index 3168350..fe95f80 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -315,6 +315,7 @@ public class Document {
                         break;
                     case NODE:
                     case NODE_ARRAY:
+                    case NODE_SPAN:
                         if(!this.layers.containsKey(field.getValue().args().get("layer").stringValue())) {
                             throw new DataInconsistencyException(
                                     String.format("Field '%s' in layer '%s' is referring " +
-- 
2.43.0


From d28236b07445ab8ba11deef9aa354b1b6efb1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 056/108] fix: Java documents made from one schema shared their
 layer definitions

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 2 +-
 java/core/src/main/java/se/lth/cs/docria/Schema.java   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index fe95f80..0ea57dc 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -34,7 +34,7 @@ public class Document {
 
     public Document(Schema schema) {
         this.schema = new Schema(schema);
-        schema.layers()
+        this.schema.layers()
               .forEach(layerSchema -> layers.put(layerSchema.name(), new Layer(this, layerSchema)));
     }
 
diff --git a/java/core/src/main/java/se/lth/cs/docria/Schema.java b/java/core/src/main/java/se/lth/cs/docria/Schema.java
index fbe3451..23ecdf6 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Schema.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Schema.java
@@ -37,6 +37,10 @@ public class Schema {
             this.factory = factory;
         }
 
+        public Layer(Layer layer) {
+            this(layer.name, new TreeMap<>(layer.fields), layer.factory);
+        }
+
         public NodeFactory factory() {
             return factory;
         }
@@ -112,7 +116,7 @@ public class Schema {
     }
 
     public Schema(Schema schema) {
-        this.layerSchema = new TreeMap<>(schema.layerSchema);
+        schema.layerSchema.forEach((name, layer) -> layerSchema.put(name, new Schema.Layer(layer)));
     }
 
     public void add(Schema.Layer layer) {
-- 
2.43.0


From 80330004081dac13ad77bb8cf5ddda5e30b2bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 057/108] fix: Java documents with node reference fields could
 not be encoded

---
 java/core/src/main/java/se/lth/cs/docria/Node.java | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index 83c256f..6defcf7 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -16,6 +16,7 @@
 package se.lth.cs.docria;
 
 import se.lth.cs.docria.values.NullValue;
+import se.lth.cs.docria.values.ValueVisitor;
 import se.lth.cs.docria.values.Values;
 
 import java.util.List;
@@ -155,6 +156,11 @@ public class Node extends Value {
         return this;
     }
 
+    @Override
+    public void visit(ValueVisitor visitor) {
+        visitor.accept(this);
+    }
+
     public void forEach(BiConsumer<String, Value> fieldFunction) {
         data.forEach(fieldFunction);
     }
-- 
2.43.0


From 81adf8846e32299a6d8e13f44281dc5096c2b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 058/108] fix: Java documents with binary fields could not be
 decoded

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index d2af9ed..5e40625 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -708,7 +708,7 @@ public class MsgpackCodec {
                 case BINARY:
                     for (int k = 0; k < numNodes; k++) {
                         if(!unpacker.tryUnpackNil()) {
-                            int numBytes = unpacker.unpackArrayHeader();
+                            int numBytes = unpacker.unpackBinaryHeader();
                             nodes.get(k).put(field, unpacker.readPayload(numBytes));
                         }
                     }
-- 
2.43.0


From 0d08fd439e145eb85e3e96bc1e2e366780c6fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 059/108] fix: Java documents with extension properties could
 not be decoded

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 5e40625..cc4b4bd 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -471,6 +471,8 @@ public class MsgpackCodec {
                     else
                         throw new UnsupportedOperationException(
                                 "Unsupported extension type: " + value.asExtensionValue().getType() + " for property key: " + key);
+
+                    break;
                 default:
                     throw new UnsupportedOperationException(
                             "Unsupported property type: " + value.getValueType().toString());
-- 
2.43.0


From 8d8cc6f4022835e362a7994c2701530a1ca0815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 060/108] fix: Java decoding rounded the floating point
 arguments of field types

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index cc4b4bd..6e50302 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -530,7 +530,7 @@ public class MsgpackCodec {
 
                                 break;
                             case FLOAT:
-                                args.put(key, Values.get(value.asFloatValue().toFloat()));
+                                args.put(key, Values.get(value.asFloatValue().toDouble()));
                                 break;
                             case BINARY:
                                 args.put(key, Values.get(value.asBinaryValue().asByteArray()));
-- 
2.43.0


From e28e43e7383979df8719397ab457477ee9468acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 061/108] fix: Java decoding altered integers beyond 64 bits
 instead of refusing them

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 6e50302..2723ef1 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -446,7 +446,7 @@ public class MsgpackCodec {
                     if(ivalue.isInIntRange())
                         props.put(key, Values.get(ivalue.toInt()));
                     else
-                        props.put(key, Values.get(ivalue.toLong()));
+                        props.put(key, Values.get(ivalue.asLong()));
 
                     break;
                 case FLOAT:
@@ -526,7 +526,7 @@ public class MsgpackCodec {
                                 if(ivalue.isInIntRange())
                                     args.put(key, Values.get(ivalue.toInt()));
                                 else
-                                    args.put(key, Values.get(ivalue.toLong()));
+                                    args.put(key, Values.get(ivalue.asLong()));
 
                                 break;
                             case FLOAT:
-- 
2.43.0


From cccb133cd59dbd521c66c313db01c08aec8c3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 062/108] fix: Java spans created before an encoding and used
 after it were encoded at the wrong place

---
 .../src/main/java/se/lth/cs/docria/Text.java  | 27 +++++--------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Text.java b/java/core/src/main/java/se/lth/cs/docria/Text.java
index c98be85..e319787 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Text.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Text.java
@@ -81,28 +81,15 @@ public class Text implements CharSequence {
     protected List<String> compile() {
         int id = 0;
 
-        {
-            IntArrayList removal = new IntArrayList();
-            pos2Offset.values().stream().filter(off -> off.refcount == 0).mapToInt(off -> off.offset).forEach(removal::add);
-            IntListIterator iter = removal.iterator();
-            while (iter.hasNext()) {
-                pos2Offset.remove(iter.nextInt());
-            }
-        }
+        // Unreferenced offsets get no id, but are kept: spans that are not (yet) in any node share them.
+        IntAVLTreeSet sortedSet = new IntAVLTreeSet();
+        pos2Offset.values().stream().filter(off -> off.refcount > 0).forEach(off -> sortedSet.add(off.offset));
 
-        IntAVLTreeSet sortedSet = new IntAVLTreeSet(pos2Offset.keySet());
+        pos2Offset.putIfAbsent(0, new Offset(0));
+        sortedSet.add(0);
 
-        if(!sortedSet.contains(0)){
-            Offset start = new Offset(0);
-            pos2Offset.put(0, start);
-            sortedSet.add(0);
-        }
-
-        if(!sortedSet.contains(text.length())) {
-            Offset stop = new Offset(text.length());
-            pos2Offset.put(text.length(), stop);
-            sortedSet.add(text.length());
-        }
+        pos2Offset.putIfAbsent(text.length(), new Offset(text.length()));
+        sortedSet.add(text.length());
 
         List<String> positions = new ArrayList<>();
 
-- 
2.43.0


From 906dec74aebe5fd6e6230a8c9ea0225c7219e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 063/108] fix: Java spans changed their equality and hash code
 when the document was encoded

---
 java/core/src/main/java/se/lth/cs/docria/Offset.java | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Offset.java b/java/core/src/main/java/se/lth/cs/docria/Offset.java
index cf5dc21..9c3b266 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Offset.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Offset.java
@@ -36,14 +36,11 @@ public class Offset implements Comparable<Offset> {
 
         Offset offset1 = (Offset) o;
 
-        if (id != offset1.id) return false;
         return offset == offset1.offset;
     }
 
     @Override
     public int hashCode() {
-        int result = id;
-        result = 31 * result + offset;
-        return result;
+        return offset;
     }
 }
-- 
2.43.0


From 7f127b3fc5eda29f2d54debe73315c6753e6d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 064/108] fix: Java texts refused empty spans at their end

---
 java/core/src/main/java/se/lth/cs/docria/Text.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Text.java b/java/core/src/main/java/se/lth/cs/docria/Text.java
index e319787..e3d4938 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Text.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Text.java
@@ -121,7 +121,7 @@ public class Text implements CharSequence {
 
     public Span span(int startOffset, int stopOffset) {
         if(validating && !(
-                (startOffset >= 0 && startOffset < text.length())
+                (startOffset >= 0 && startOffset <= text.length())
              && (stopOffset >= 0 && stopOffset <= text.length())
              && (stopOffset >= startOffset)
         )) {
-- 
2.43.0


From 0cece302c626e59cbc236474bea3a9e47ad538f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 065/108] fix: Java encoding wrote references to nodes that are
 not in the layer referred to

---
 .../java/se/lth/cs/docria/MsgpackCodec.java   | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 2723ef1..ab10b52 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -22,6 +22,7 @@ import org.msgpack.core.MessageUnpacker;
 import org.msgpack.core.buffer.MessageBuffer;
 import org.msgpack.value.ImmutableIntegerValue;
 import org.msgpack.value.ImmutableValue;
+import se.lth.cs.docria.exceptions.DataInconsistencyException;
 import se.lth.cs.docria.values.*;
 
 import java.io.IOError;
@@ -33,6 +34,9 @@ public class MsgpackCodec {
     private static class ValueWriter implements ValueVisitor {
         private MessagePacker packer;
 
+        /** The layer nodes have to be in to be encoded as references, null if references are not possible. */
+        private Layer target;
+
         public ValueWriter(MessagePacker packer) {
             this.packer = packer;
         }
@@ -143,8 +147,17 @@ public class MsgpackCodec {
             }
         }
 
+        private void verify(Node node) {
+            if(target == null)
+                throw new DataInconsistencyException("Nodes cannot be encoded outside of node fields.");
+
+            if(node.layer != target)
+                throw new DataInconsistencyException("Reference to a node which is not in layer " + target.name());
+        }
+
         @Override
         public void accept(Node value) {
+            verify(value);
             try {
                 packer.packInt(value.id);
             }
@@ -157,6 +170,10 @@ public class MsgpackCodec {
         public void accept(NodeArrayValue value) {
             try {
                 Node[] nodes = value.nodeArrayValue();
+                for (Node node : nodes) {
+                    verify(node);
+                }
+
                 packer.packArrayHeader(nodes.length);
                 for (int i = 0; i < nodes.length; i++) {
                     packer.packInt(nodes[i].id);
@@ -168,6 +185,11 @@ public class MsgpackCodec {
 
         @Override
         public void accept(NodeSpan value) {
+            verify(value.left);
+            verify(value.right);
+            if(value.left.id > value.right.id)
+                throw new DataInconsistencyException("Node span with its left node after its right node in layer " + target.name());
+
             try {
                 packer.packArrayHeader(2);
                 packer.packInt(value.left.id);
@@ -335,7 +357,7 @@ public class MsgpackCodec {
         }
     }
 
-    private static void encodeLayerData(MessagePacker packer, Layer layer, List<String> fields) {
+    private static void encodeLayerData(MessagePacker packer, Document document, Layer layer, List<String> fields) {
         try {
             MessageBufferPacker layerPacker = MessagePack.newDefaultBufferPacker();
 
@@ -363,6 +385,9 @@ public class MsgpackCodec {
                         }
                         break;
                     default:
+                        writer.target = dataType.args().containsKey("layer")
+                                ? document.layer(dataType.args().get("layer").stringValue()) : null;
+
                         layerPacker.packArrayHeader(layer.size());
                         try {
                             for (Node node : layer) {
@@ -406,7 +431,7 @@ public class MsgpackCodec {
 
             //5. Write Layer data
             for (String type : types) {
-                encodeLayerData(packer, document.layer(type), types2columns.get(type));
+                encodeLayerData(packer, document, document.layer(type), types2columns.get(type));
             }
 
             return packer.toMessageBuffer();
-- 
2.43.0


From b7741be2e113855ab45be2a598da2c5ba711b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 066/108] fix: Java encoding wrote spans of other texts and
 spans in properties as something else

---
 .../main/java/se/lth/cs/docria/MsgpackCodec.java   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index ab10b52..8a9dc2f 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -113,13 +113,7 @@ public class MsgpackCodec {
 
         @Override
         public void accept(Span value) {
-            try {
-                packer.packInt(value.startOffset().id);
-                packer.packInt(value.stopOffset().id);
-            }
-            catch(IOException e) {
-                throw new IOError(e);
-            }
+            throw new DataInconsistencyException("Spans cannot be encoded outside of span fields.");
         }
 
         public boolean schemaless = false;
@@ -371,6 +365,8 @@ public class MsgpackCodec {
                 layerPacker.packBoolean(false); //Future improvement of encoding!
                 switch (dataType.name()) {
                     case SPAN:
+                        Text text = document.text(dataType.args().get("context").stringValue());
+
                         layerPacker.packArrayHeader(layer.size()*2);
                         for (Node node : layer) {
                             Value spanValue = node.get(field);
@@ -379,6 +375,10 @@ public class MsgpackCodec {
                                 layerPacker.packNil();
                             } else {
                                 Span span = spanValue.spanValue();
+                                if(span.source() != text)
+                                    throw new DataInconsistencyException(
+                                            String.format("Field %s in layer %s has a span which is not of text %s", field, layer.name(), text.name()));
+
                                 layerPacker.packInt(span.startOffset().id);
                                 layerPacker.packInt(span.stopOffset().id);
                             }
-- 
2.43.0


From a23e6a109813de1eda2afc440e1ffb9ca4c352b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 067/108] fix: Java concrete nodes with unset fields could not
 be encoded, decoded or enumerated

---
 .../java/se/lth/cs/docria/ConcreteNode.java   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/ConcreteNode.java b/java/core/src/main/java/se/lth/cs/docria/ConcreteNode.java
index 3dab949..9df97e6 100644
--- a/java/core/src/main/java/se/lth/cs/docria/ConcreteNode.java
+++ b/java/core/src/main/java/se/lth/cs/docria/ConcreteNode.java
@@ -15,6 +15,8 @@
 
 package se.lth.cs.docria;
 
+import se.lth.cs.docria.values.NullValue;
+
 import java.util.Map;
 import java.util.TreeMap;
 import java.util.concurrent.Callable;
@@ -53,7 +55,7 @@ public abstract class ConcreteNode extends Node {
     public void forEach(BiConsumer<String, Value> fieldFunction) {
         super.forEach(fieldFunction);
         NodeInterface nodeInterface = nodeInterface();
-        nodeInterface.getters.forEach((k,v) -> fieldFunction.accept(k, v.apply(this)));
+        nodeInterface.getters.keySet().stream().filter(this::has).forEach(k -> fieldFunction.accept(k, get(k)));
     }
 
     @Override
@@ -73,12 +75,19 @@ public abstract class ConcreteNode extends Node {
     @Override
     public Value get(String field) {
         Map<String, Function<Node, Value>> getters = nodeInterface().getters;
-        if(getters.containsKey(field))
-            return getters.get(field).apply(this);
+        if(getters.containsKey(field)) {
+            Value value = getters.get(field).apply(this);
+            return value == null ? NullValue.INSTANCE : value;
+        }
         else
             return super.get(field);
     }
 
+    @Override
+    public Value get(String field, Value defaultValue) {
+        return has(field) ? get(field) : defaultValue;
+    }
+
     @Override
     public Node put(String field, Value value) {
         Map<String, BiConsumer<Node, Value>> setters = nodeInterface().setters;
@@ -92,7 +101,10 @@ public abstract class ConcreteNode extends Node {
 
     @Override
     public boolean has(String field) {
-        return nodeInterface().getters.containsKey(field) || super.has(field);
+        if(nodeInterface().getters.containsKey(field))
+            return !(get(field) instanceof NullValue);
+        else
+            return super.has(field);
     }
 
     protected abstract NodeInterface nodeInterface();
-- 
2.43.0


From d5d0a3a24c2081eba34e498a302ba95006662122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 068/108] fix: Java span fields explicitly set to null could
 not be encoded

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index 0ea57dc..3dfbb3f 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -16,6 +16,7 @@
 package se.lth.cs.docria;
 
 import se.lth.cs.docria.exceptions.DataInconsistencyException;
+import se.lth.cs.docria.values.NullValue;
 
 import java.util.*;
 import java.util.stream.Collectors;
@@ -351,8 +352,9 @@ public class Document {
             if(spanFields.size() > 0) {
                 layer.forEach(n -> {
                     for (String spanField : spanFields) {
-                        if(n.has(spanField))
-                            n.get(spanField).spanValue().incref();
+                        Value value = n.get(spanField);
+                        if(!(value instanceof NullValue))
+                            value.spanValue().incref();
                     }
                 });
             }
-- 
2.43.0


From ba9fdadee2687f0c7cc270ca421838703e4b990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 069/108] fix: Java nodes that refer to removed nodes could not
 be printed

---
 java/core/src/main/java/se/lth/cs/docria/Node.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index 6defcf7..53162d3 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -199,9 +199,9 @@ public class Node extends Value {
             } else {
                 sb.append(", ");
             }
-            if(stringValueEntry.getValue().type().name() == DataTypeName.NODE) {
+            if(stringValueEntry.getValue() instanceof Node) {
                 Node n = stringValueEntry.getValue().nodeValue();
-                sb.append(stringValueEntry.getKey()).append(" = ").append(n.layer().name()).append("#").append(n.id);
+                sb.append(stringValueEntry.getKey()).append(" = ").append(n.layer != null ? n.layer.name() : "???").append("#").append(n.id);
             }
             else {
                 sb.append(stringValueEntry.getKey()).append(" = ").append(stringValueEntry.getValue());
-- 
2.43.0


From 3d933dd75f7826a328f214a758819bea1556e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 070/108] fix: Java floating point values had no string value

---
 .../core/src/main/java/se/lth/cs/docria/values/DoubleValue.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java b/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
index 43ad96b..56e4fef 100644
--- a/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
+++ b/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
@@ -37,7 +37,7 @@ public class DoubleValue extends Value {
 
     @Override
     public String stringValue() {
-        return null;
+        return String.valueOf(value);
     }
 
     @Override
-- 
2.43.0


From 14e6214141ebbe9b30d1884451b7c04148fb8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 071/108] fix: Java floating point values had the opposite
 boolean value

---
 .../core/src/main/java/se/lth/cs/docria/values/DoubleValue.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java b/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
index 56e4fef..e9021c3 100644
--- a/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
+++ b/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
@@ -42,7 +42,7 @@ public class DoubleValue extends Value {
 
     @Override
     public boolean boolValue() {
-        return Math.abs(value) - EPS <= 0.0;
+        return !(Math.abs(value) <= EPS);
     }
 
     @Override
-- 
2.43.0


From 95aab2fb9d0e0323edcde89be94c16f1a9558a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 072/108] fix: Java GroupBySpan ignored the span field given
 with a list of groups

---
 .../src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
index ab4f28d..d70292c 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
@@ -31,7 +31,7 @@ public class GroupBySpan {
     }
 
     public static Builder builder(List<Node> groups, String spanfield) {
-        return new Builder(groups, "text");
+        return new Builder(groups, spanfield);
     }
 
     public static Builder builder(Layer groups) {
-- 
2.43.0


From bad86981cf04486d8c0b815e56434c05f361d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 073/108] fix: Java DominantRight lost segments that follow the
 end of a discarded one

---
 .../main/java/se/lth/cs/docria/algorithms/DominantRight.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
index 49b5214..bedffc9 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
@@ -85,7 +85,7 @@ public class DominantRight {
                     output.add(point.segment.tag);
                     open = null;
                 }
-            } else {
+            } else if(point.start) {
                 open = point.segment;
             }
         }
-- 
2.43.0


From ccaa0999827957d666e0143aae3f0ef5e1458bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 074/108] fix: Java DominantRight failed on nodes without a
 span

---
 .../main/java/se/lth/cs/docria/algorithms/DominantRight.java   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
index bedffc9..790ccfe 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
@@ -95,7 +95,7 @@ public class DominantRight {
 
 
     public static List<Node> resolveNodespans(Collection<Node> nodes, String nodespanField) {
-        return resolve(() -> nodes.stream().map(n -> {
+        return resolve(() -> nodes.stream().filter(n -> n.has(nodespanField)).map(n -> {
             NodeSpan span = n.get(nodespanField).nodeSpanValue();
             return new Segment<>(span.getLeft().id(), span.getRight().id()+1, n);
         }).iterator());
@@ -103,6 +103,7 @@ public class DominantRight {
 
     public static List<Node> resolve(Collection<Node> nodes, String spanfield) {
         return resolve(() -> nodes.stream()
+                                  .filter(n -> n.has(spanfield))
                                   .map(n -> {
                                       Span span = n.get(spanfield).spanValue();
                                       return new Segment<>(span.start(), span.stop(), n);
-- 
2.43.0


From 736386ca23945fe5dcfea11ed81a5d7f47e9a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 075/108] fix: Java encoding destroyed characters that a span
 cuts through

---
 java/core/src/main/java/se/lth/cs/docria/Text.java | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Text.java b/java/core/src/main/java/se/lth/cs/docria/Text.java
index e3d4938..3b36d5b 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Text.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Text.java
@@ -105,6 +105,12 @@ public class Text implements CharSequence {
             pos2Offset.get(startOffset).id = id++;
             do {
                 int stopOffset = iter.nextInt();
+                if(stopOffset < text.length()
+                        && Character.isHighSurrogate(text.charAt(stopOffset-1))
+                        && Character.isLowSurrogate(text.charAt(stopOffset))) {
+                    throw new SpanException(String.format("A span in text %s starts or stops inside the character at %d", name, stopOffset-1));
+                }
+
                 pos2Offset.get(stopOffset).id = id++;
 
                 positions.add(text.substring(startOffset, stopOffset));
-- 
2.43.0


From b9dbdab56113d8e0ad2edd8c5a16dc10e09b3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 076/108] fix: Java readers mixed up blocks read concurrently,
 or read both as blocks and as single documents

---
 .../java/se/lth/cs/docria/io/DocumentStreamReader.java    | 8 +++-----
 .../se/lth/cs/docria/io/MsgpackDocumentStreamReader.java  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
index ccdc446..6fd0f51 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
@@ -92,12 +92,10 @@ public class DocumentStreamReader {
                 }
 
                 byte[] rawdata = codec.apply(compressed);
-                block = MessagePack.newDefaultUnpacker(rawdata);
-                if(block.hasNext())
-                    break;
+                MessageUnpacker nextBlock = MessagePack.newDefaultUnpacker(rawdata);
+                if(nextBlock.hasNext())
+                    return nextBlock;
             }
-
-            return block;
         } catch (IOException e) {
             throw new IOError(e);
         }
diff --git a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
index e533283..77c682e 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
@@ -102,12 +102,10 @@ public class MsgpackDocumentStreamReader {
                 }
 
                 byte[] rawdata = codec.apply(compressed);
-                block = MessagePack.newDefaultUnpacker(rawdata);
-                if(block.hasNext())
-                    break;
+                MessageUnpacker nextBlock = MessagePack.newDefaultUnpacker(rawdata);
+                if(nextBlock.hasNext())
+                    return nextBlock;
             }
-
-            return block;
         } catch (IOException e) {
             throw new IOError(e);
         }
-- 
2.43.0


From 92ec6b98b41e614f2fee7db729cfab06295478f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 077/108] fix: Java skip(n) up to the end of a block made
 skipBlock skip the block after the next

---
 .../cs/docria/io/DocumentStreamReader.java    | 22 ++-----------------
 .../io/MsgpackDocumentStreamReader.java       | 22 ++-----------------
 2 files changed, 4 insertions(+), 40 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
index 6fd0f51..65c535b 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
@@ -213,26 +213,8 @@ public class DocumentStreamReader {
 
     public long skip(long n) {
         long k = 0;
-        if(block == null) {
-            block = readNextBlock();
-            if (block == null)
-                return k;
-        }
-
-        while(k < n) {
-            try {
-                block.skipValue();
-                k++;
-
-                if(!block.hasNext()) {
-                    block = readNextBlock();
-                    if (block == null)
-                        return k;
-                }
-            } catch (IOException e) {
-                throw new IOError(e);
-            }
-        }
+        while(k < n && skip())
+            k++;
 
         return k;
     }
diff --git a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
index 77c682e..f9fb884 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
@@ -223,26 +223,8 @@ public class MsgpackDocumentStreamReader {
 
     public long skip(long n) {
         long k = 0;
-        if(block == null) {
-            block = readNextBlock();
-            if (block == null)
-                return k;
-        }
-
-        while(k < n) {
-            try {
-                block.skipValue();
-                k++;
-
-                if(!block.hasNext()) {
-                    block = readNextBlock();
-                    if (block == null)
-                        return k;
-                }
-            } catch (IOException e) {
-                throw new IOError(e);
-            }
-        }
+        while(k < n && skip())
+            k++;
 
         return k;
     }
-- 
2.43.0


From 4736c0b1ca08bf786deb58d81b0bbb13fa664403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 078/108] fix: Java document files without documents had no
 header

---
 .../src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
index 33f471b..9f44649 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
@@ -118,6 +118,7 @@ public class DocumentStreamWriter {
             if(currentblockCount > 0)
                 flushblock();
 
+            packer.flush();
             outputStream.flush();
         } catch (IOException e) {
             throw new IOError(e);
-- 
2.43.0


From 4710f979ac500c01037a50bbd374c4d56c2c7481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 079/108] fix: Java decompression of truncated data never ended

---
 java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java b/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
index 032604f..5351870 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
@@ -78,6 +78,9 @@ public class DeflateCodec {
 
             do {
                 int written = inflater.inflate(buffer);
+                if(written == 0 && !inflater.finished())
+                    throw new DataFormatException("Compressed data is truncated");
+
                 outputBuffer.write(buffer, 0, written);
             } while(!inflater.finished());
 
-- 
2.43.0


From 86c35db5c4b0e33a802331878a45054dda4c9972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 080/108] fix: Java MsgpackDocument.properties read beyond the
 properties

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 23db10d..c06dbe4 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -114,7 +114,7 @@ public class MsgpackDocument {
     public Map<String, Value> properties() {
         determineCompartments();
         try {
-            MessageUnpacker unpacker = MessagePack.newDefaultUnpacker(data, positions[PROPERTY_START], positions[PROPERTY_END]);
+            MessageUnpacker unpacker = MessagePack.newDefaultUnpacker(data, positions[PROPERTY_START], positions[PROPERTY_END] - positions[PROPERTY_START]);
             return MsgpackCodec.decodeProperties(unpacker);
         } catch (IOException e) {
             throw new IOError(e);
-- 
2.43.0


From a11c55372d2e8bdf4059efc61d71532e635034e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 081/108] fix: Java documents assembled from compartments had
 no header

---
 .../core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index c06dbe4..0067829 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -38,10 +38,13 @@ public class MsgpackDocument {
     }
 
     public MsgpackDocument(byte[] propertyCompartment, byte[] schemaCompartment, byte[] textCompartment, byte[] layerCompartment) {
-        int totalSize = propertyCompartment.length + schemaCompartment.length + textCompartment.length + layerCompartment.length;
+        byte[] header = "DM_1".getBytes();
+        int totalSize = header.length + propertyCompartment.length + schemaCompartment.length + textCompartment.length + layerCompartment.length;
         this.data = new byte[totalSize];
 
         int pos = 0;
+        System.arraycopy(header, 0, data, pos, header.length);
+        pos += header.length;
         System.arraycopy(propertyCompartment, 0, data, pos, propertyCompartment.length);
         pos += propertyCompartment.length;
         System.arraycopy(schemaCompartment, 0, data, pos, schemaCompartment.length);
-- 
2.43.0


From bf2deba444f98a20d4e73f6e16040d87bb96b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 082/108] fix: Java MsgpackDocument took the first layer for
 the whole layer compartment, and failed without layers

---
 .../src/main/java/se/lth/cs/docria/MsgpackDocument.java     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 0067829..b53063b 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -105,8 +105,10 @@ public class MsgpackDocument {
 
                 // 4. Find layer compartment
                 positions[LAYERS_START] = (int)unpacker.getTotalReadBytes();
-                int layer_sz = unpacker.unpackInt();
-                unpacker.readPayloadAsReference(layer_sz);
+                for (int i = 0; i < types.size(); i++) {
+                    int layer_sz = unpacker.unpackInt();
+                    unpacker.readPayloadAsReference(layer_sz);
+                }
                 positions[LAYERS_END] = (int)unpacker.getTotalReadBytes();
             } catch (IOException e) {
                 throw new IOError(e);
-- 
2.43.0


From 2fd5587c2be0325f9de1134e636175a6e021bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 083/108] fix: Java MsgpackDocument.schema was null until
 something else was asked for

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index b53063b..210efeb 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -147,6 +147,7 @@ public class MsgpackDocument {
     }
 
     public Schema schema() {
+        determineCompartments();
         return schema;
     }
 
-- 
2.43.0


From 3c114180d4c9a144a39f9f067528c85f05b258f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 084/108] fix: Java MsgpackDocument gave wrong sections of a
 truncated document when asked again

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 210efeb..958fad6 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -80,7 +80,7 @@ public class MsgpackDocument {
                 MessageUnpacker unpacker = MessagePack.newDefaultUnpacker(data);
                 unpacker.readPayloadAsReference(4);
 
-                this.positions = new int[8]; // Start + End
+                int[] positions = new int[8]; // Start + End
 
                 // 1. Find property compartment
                 positions[PROPERTY_START] = (int)unpacker.getTotalReadBytes();
@@ -110,6 +110,8 @@ public class MsgpackDocument {
                     unpacker.readPayloadAsReference(layer_sz);
                 }
                 positions[LAYERS_END] = (int)unpacker.getTotalReadBytes();
+
+                this.positions = positions;
             } catch (IOException e) {
                 throw new IOError(e);
             }
-- 
2.43.0


From 8d1c23038679728018b68399bade7fff3c19d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 085/108] fix: Java encoding wrote every extension property as
 a document

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 8a9dc2f..5da8949 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -124,7 +124,7 @@ public class MsgpackCodec {
                 byte[] bytes = value.binaryValue();
                 if(schemaless) {
                     MessageBufferPacker typePacker = MessagePack.newDefaultBufferPacker();
-                    typePacker.packString("doc");
+                    typePacker.packString(value.type().args().get("type").stringValue());
                     typePacker.packBinaryHeader(bytes.length);
                     typePacker.addPayload(bytes);
                     byte[] data = typePacker.toByteArray();
-- 
2.43.0


From 4d67102ed2c57b21fc7dbfb614fc871bfd73fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 086/108] fix: Java document readers given a decompression
 function could not read any file

---
 .../src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java | 2 +-
 .../java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
index 65c535b..a050aa5 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
@@ -46,10 +46,10 @@ public class DocumentStreamReader {
                 throw new IOException("Incorrect header: Dmf1, found: " + new String(header, StandardCharsets.ISO_8859_1));
             }
 
+            String codec = this.unpacker.unpackString();
             if(codecfn != null) {
                 this.codec = codecfn;
             } else {
-                String codec = this.unpacker.unpackString();
                 switch (codec) {
                     case "none":
                         this.codec = x -> x;
diff --git a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
index f9fb884..d0b31f8 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
@@ -56,10 +56,10 @@ public class MsgpackDocumentStreamReader {
                 throw new IOException("Incorrect header: Dmf1, found: " + new String(header, StandardCharsets.ISO_8859_1));
             }
 
+            String codec = this.unpacker.unpackString();
             if(codecfn != null) {
                 this.codec = codecfn;
             } else {
-                String codec = this.unpacker.unpackString();
                 switch (codec) {
                     case "none":
                         this.codec = x -> x;
-- 
2.43.0


From 36a09be9b3a90ce3c55697a520f5b83f717a3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 087/108] fix: Java boundary files pointed the markers within
 the first block at the file header

---
 .../src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
index 9f44649..7cef532 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
@@ -74,6 +74,7 @@ public class DocumentStreamWriter {
         this.packer.packString(codec.name);
         this.packer.packInt(numDocsPerBlock);
         this.packer.packBoolean(false);
+        this.packer.flush();
 
         this.currentblock = MessagePack.newDefaultBufferPacker();
         this.currentblockCount = 0;
-- 
2.43.0


From 9faf5a5c4175613f39a606fec2ea855882467783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 088/108] fix: Java node builders refused values for fields
 with a default

---
 java/core/src/main/java/se/lth/cs/docria/Node.java | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index 53162d3..68cb33d 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -54,10 +54,17 @@ public class Node extends Value {
             this.instance = instance;
         }
 
+        /** The default of a field is not part of the type of its values. */
+        private static boolean accepts(DataType fieldType, DataType valueType) {
+            Map<String, Value> args = new TreeMap<>(fieldType.args());
+            args.remove("default");
+            return fieldType.name() == valueType.name() && args.equals(valueType.args());
+        }
+
         public Builder put(String fieldName, Value value) {
             DataType fieldType = schema.getFieldType(fieldName);
             if(fieldType != null) {
-                if(!value.type().equals(fieldType)) {
+                if(!accepts(fieldType, value.type())) {
                     throw new IllegalArgumentException("value does not match expected type. Got: " + value.type().toString() + ", Expected: " + fieldType.toString());
                 }
             }
-- 
2.43.0


From cb60b57897d2ce59861b987afbdcb55997b69d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 089/108] fix: Java node spans with removed ends had no string

---
 java/core/src/main/java/se/lth/cs/docria/NodeSpan.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java b/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
index efb6cc2..08347e3 100644
--- a/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
+++ b/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
@@ -45,7 +45,7 @@ public class NodeSpan extends Value implements Iterable<Node> {
 
     @Override
     public String stringValue() {
-        if(left.has("text") && right.has("text") && left.layer.schema().getFieldType("text").name() == DataTypeName.SPAN) {
+        if(left.isValid() && right.isValid() && left.get("text") instanceof Span && right.get("text") instanceof Span) {
             Span startSpan = left.get("text").spanValue();
             Span stopSpan = right.get("text").spanValue();
 
-- 
2.43.0


From d9f3bf7941091200167e8f4ea6988a538d9ccddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 090/108] fix: Java DocumentWritable lost changes to its
 document

---
 .../main/java/se/lth/cs/docria/hadoop/DocumentWritable.java   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocumentWritable.java b/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocumentWritable.java
index 4138b7d..9e537da 100644
--- a/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocumentWritable.java
+++ b/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocumentWritable.java
@@ -25,8 +25,10 @@ public class DocumentWritable implements Writable, Externalizable {
     }
 
     public Document getDocument() {
-        if(document == null && msgpackBlob != null)
+        if(document == null && msgpackBlob != null) {
             document = MsgpackCodec.decode(msgpackBlob);
+            msgpackBlob = null; // The document might be modified
+        }
 
         return document;
     }
-- 
2.43.0


From f5667b75f505d93ea7bb1beacb0311abe4d661e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 091/108] fix: documents read from a JSON object shared their
 properties with it

---
 py/docria/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index a8bac11..7c41da8 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -17,6 +17,7 @@
 """Codecs, encoding/decoding documents to/from binary or text representations"""
 from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan, \
     datatype_from_name
+import copy
 import msgpack
 import json
 import logging
@@ -195,7 +196,7 @@ class JsonCodec:
         texts, types, types_num_nodes, schema = Codec.encode(doc, doc_encoder=JsonCodec.encode_object)
         return {
             "DM10": {
-                "props": doc.props,
+                "props": copy.deepcopy(doc.props),
                 "texts": texts,
                 "num_nodes": types_num_nodes,
                 "types": types,
@@ -219,7 +220,7 @@ class JsonCodec:
         docobj = docobj["DM10"]
 
         doc = Document()
-        doc.props = docobj["props"]
+        doc.props = copy.deepcopy(docobj["props"])
 
         schema = {}  # type: Dict[str, List[Tuple[str, DataType]]]
 
-- 
2.43.0


From 1d9d3e66191afd290f0850ec6a92a26f1cd93d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 092/108] fix: Java spans gave subsequences that start before
 the span

---
 java/core/src/main/java/se/lth/cs/docria/Span.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Span.java b/java/core/src/main/java/se/lth/cs/docria/Span.java
index efb48a4..dee28a1 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Span.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Span.java
@@ -99,9 +99,9 @@ public class Span extends Value implements CharSequence, Comparable<Span> {
 
     @Override
     public CharSequence subSequence(int start, int end) {
-        if(end + startOffset.offset > stopOffset.offset) {
+        if(start < 0 || end + startOffset.offset > stopOffset.offset) {
             throw new ArrayIndexOutOfBoundsException(
-                    String.format("end is outside this span, span = [%d, %d), requested = [%d, %d)",
+                    String.format("start or end is outside this span, span = [%d, %d), requested = [%d, %d)",
                                   startOffset.offset, stopOffset.offset,
                                   start+startOffset.offset, end+startOffset.offset));
         }
-- 
2.43.0


From da2e689ff9618a8aa9fe8ab43bb42e0160eb1d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 093/108] fix: iterations of a layer in progress lost nodes or
 gave gaps when it was compacted or edited

---
 py/docria/model.py | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 3d5b146..6882be0 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1566,15 +1566,10 @@ class NodeLayerCollection(NodeCollection):
             # No compacting needed.
             return
 
-        i = 0
-        for k in range(0, len(self._nodes)):
-            if self._nodes[k] is not None:
-                self._nodes[i] = self._nodes[k]
-                self._nodes[i]._id = i
-                i += 1
-
-        # Trim it
-        del self._nodes[i:]
+        # In a new list: an iteration in progress keeps its place in the one it started with
+        self._nodes = [n for n in self._nodes if n is not None]
+        for i, n in enumerate(self._nodes):
+            n._id = i
 
     def filter(self, *fields, fn):
         """
@@ -1648,23 +1643,14 @@ class NodeLayerCollection(NodeCollection):
         # Set guards against more than one reference to a node in nodes
         retained = set(nodes)
 
-        # Compact and remove all other nodes
-        k = 0
-        for i in range(len(self._nodes)):
-            n = self._nodes[i]
-            if n is None:
-                continue
-
+        # Remove all other nodes and compact
+        for n in self:
             if n not in retained:
-                n.collection = None
+                self._nodes[n._id] = None
                 self.num -= 1
-            else:
-                self._nodes[k] = n
-                n._id = k
-                k += 1
+                n.collection = None
 
-        # Compact list
-        del self._nodes[k:]
+        self.compact()
 
     def left(self, n: "Node") -> Optional["Node"]:
         """:return: node to the left or lower index than given n or None if none available."""
@@ -1699,14 +1685,15 @@ class NodeLayerCollection(NodeCollection):
         assert left_most.collection == right_most.collection and right_most.collection is self, \
             "Collection did not match"
 
-        return filter(None.__ne__, map(self._nodes.__getitem__, range(left_most.i, right_most.i + 1)))
+        return self._iter_attached(map(self._nodes.__getitem__, range(left_most.i, right_most.i + 1)))
 
     def __iter__(self) -> Iterator[Node]:
         """Get iterator for all nodes in this layer"""
-        if self.num == len(self._nodes):
-            return iter(self._nodes)
-        else:
-            return filter(None.__ne__, self._nodes)
+        return self._iter_attached(self._nodes)
+
+    def _iter_attached(self, nodes: Iterable[Optional[Node]]) -> Iterator[Node]:
+        """Skips gaps and nodes which are no longer in this layer when their turn comes"""
+        return (n for n in nodes if n is not None and n.collection is self)
 
     def __repr__(self):
         return "Layer(%s, N=%d)" % (self.name, self.num)
-- 
2.43.0


From 58eff1a99b3304a3ab486cb2d86d4829eaec3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 094/108] fix: Java iterations of a layer in progress lost
 nodes when it was compacted or sorted

---
 .../src/main/java/se/lth/cs/docria/Layer.java | 43 +++++++++++--------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index e55f53d..6dca6cb 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -82,11 +82,18 @@ public class Layer extends AbstractCollection<Node> {
 
     @Override
     public Stream<Node> stream() {
-        return storage.stream().filter(Objects::nonNull);
+        return storage.stream().filter(this::attached);
+    }
+
+    /**
+     * Skips gaps, and nodes which have left this layer when an iteration in progress comes to them.
+     */
+    private boolean attached(Node node) {
+        return node != null && node.layer == this;
     }
 
     public <T> Stream<T> stream(Class<T> nodeType) {
-        return (Stream<T>)storage.stream().filter(Objects::nonNull);
+        return (Stream<T>)storage.stream().filter(this::attached);
     }
 
     /**
@@ -142,7 +149,9 @@ public class Layer extends AbstractCollection<Node> {
      */
     public Layer sort(Comparator<Node> comparator) {
         compact();
-        storage.subList(0, size).sort(comparator);
+        // Neither sorts nor compacts in place: iterations in progress keep the list they started with
+        storage = new ArrayList<>(storage);
+        storage.sort(comparator);
         for (int i = 0; i < size; i++) {
             storage.get(i).id = i;
         }
@@ -221,7 +230,7 @@ public class Layer extends AbstractCollection<Node> {
                     String.format("Start and stop are not in sequence: start.id = %d, stop.id = %d", left.id, right.id)
             );
 
-        return IntStream.range(left.id, right.id+1).mapToObj(this.storage::get).filter(Objects::nonNull);
+        return IntStream.range(left.id, right.id+1).mapToObj(this.storage::get).filter(this::attached);
     }
 
     public void nodespanForEach(Consumer<? super Node> consumer, Node left, Node right) {
@@ -240,7 +249,7 @@ public class Layer extends AbstractCollection<Node> {
                     String.format("Start and stop are not in sequence: start.id = %d, stop.id = %d", left.id, right.id)
             );
 
-        IntStream.range(left.id, right.id+1).mapToObj(this.storage::get).filter(Objects::nonNull).forEach(consumer);
+        IntStream.range(left.id, right.id+1).mapToObj(this.storage::get).filter(this::attached).forEach(consumer);
     }
 
     @Override
@@ -316,28 +325,24 @@ public class Layer extends AbstractCollection<Node> {
     }
 
     public void compact() {
-        int i = 0;
-        for (int k = 0; k < storage.size(); k++) {
-            if(storage.get(k) != null) {
-                Node node = storage.get(k);
-                node.id = i;
-                storage.set(i++, node);
+        if(this.size == storage.size())
+            return;
+
+        ArrayList<Node> compacted = new ArrayList<>(this.size);
+        for (Node node : storage) {
+            if(node != null) {
+                node.id = compacted.size();
+                compacted.add(node);
             }
         }
 
-        for(int k = size; k < storage.size(); k++) {
-            storage.set(k, null);
-        }
-
-        // Shrink to size
-        if(this.size < 0.75 * storage.size() && storage.size() > 16)
-            storage = new ArrayList<>(storage.subList(0, this.size));
+        storage = compacted;
     }
 
     @Override
     public void forEach(Consumer<? super Node> action) {
         Objects.requireNonNull(action);
-        this.storage.forEach(n -> {if(n != null) action.accept(n); });
+        this.storage.forEach(n -> {if(attached(n)) action.accept(n); });
     }
 
     @Override
-- 
2.43.0


From e46de77a2d19844e7db18c4c23017fe42133b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 095/108] fix: is_any predicates compared by hash instead of
 equality

---
 py/docria/model.py |  2 +-
 py/docria/query.py | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6882be0..685e506 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -332,7 +332,7 @@ class NodeFieldCollection(Sized):
         :param item: the items to verify against
         :return: is any predicate
         """
-        return NodeFieldPredicateContains(self, set(item))
+        return NodeFieldPredicateContains(self, item)
 
     def covered_by(self, *range):
         """
diff --git a/py/docria/query.py b/py/docria/query.py
index def2e67..8ebaa2b 100644
--- a/py/docria/query.py
+++ b/py/docria/query.py
@@ -15,7 +15,7 @@
 # limitations under the License.
 #
 """Internal functionality for queries"""
-from typing import Set, TYPE_CHECKING
+from typing import Collection, TYPE_CHECKING
 if TYPE_CHECKING:
     from .model import Node, NodeFieldCollection
 
@@ -83,12 +83,20 @@ class NodePredicateAnd(NodePredicate):
 
 
 class NodeFieldPredicateContains(NodePredicate):
-    def __init__(self, field: "NodeFieldCollection", values: Set[any]):
+    # Values of these types are only equal to each other, and then have the same hash code
+    _hashed = (str, int, float, bytes, type(None))
+
+    def __init__(self, field: "NodeFieldCollection", values: Collection[any]):
         self.fld = field.field
-        self.values = values
+        self.values = tuple(values)
+        self._lookup = frozenset(values) if all(type(v) in self._hashed for v in self.values) else None
 
     def __call__(self, n: "Node"):
-        return n.get(self.fld) in self.values
+        value = n.get(self.fld)
+        if self._lookup is not None and type(value) in self._hashed:
+            return value in self._lookup
+
+        return value in self.values
 
     def __repr__(self):
         return "({%s} is any of %s)" % (self.fld, repr(self.values))
-- 
2.43.0


From 694358b95759e5e4dbf27dcf6e441bf7add82a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 096/108] fix: inequality of nodes compared their contents

---
 py/docria/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 685e506..41a8f60 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -153,6 +153,9 @@ class Node(dict):
     def __eq__(self, other):
         return self is other
 
+    def __ne__(self, other):
+        return self is not other
+
     def __str__(self):
         tbl = self._table_repr_()
         return tbl.render_text()
-- 
2.43.0


From 871002dd5f176ba5ddcb7b61bba4bb87bd642982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 097/108] fix: reversed iteration of a layer with gaps gave
 None and missed nodes

---
 py/docria/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 41a8f60..04fa9f7 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1694,6 +1694,10 @@ class NodeLayerCollection(NodeCollection):
         """Get iterator for all nodes in this layer"""
         return self._iter_attached(self._nodes)
 
+    def __reversed__(self) -> Iterator[Node]:
+        """Get iterator for all nodes in this layer, from last to first"""
+        return self._iter_attached(reversed(self._nodes))
+
     def _iter_attached(self, nodes: Iterable[Optional[Node]]) -> Iterator[Node]:
         """Skips gaps and nodes which are no longer in this layer when their turn comes"""
         return (n for n in nodes if n is not None and n.collection is self)
-- 
2.43.0


From b5a446b3a7dfb73d3478ff8df23c0cfe4d291c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 098/108] fix: copies of a node claimed to be attached to its
 layer

---
 py/docria/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 04fa9f7..8639a45 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -156,6 +156,10 @@ class Node(dict):
     def __ne__(self, other):
         return self is not other
 
+    def __copy__(self):
+        """:return: a new node with the same fields, which is not in any layer."""
+        return type(self)(self)
+
     def __str__(self):
         tbl = self._table_repr_()
         return tbl.render_text()
-- 
2.43.0


From cbcfd79e44520aac028b9774c87a9a8b5a2febd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 099/108] fix: nodes were never contained in node spans and
 queries

---
 py/docria/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 8639a45..559d643 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -266,6 +266,10 @@ class NodeCollection(Sized):
         return self._table_repr_().render_html()
 
     def __contains__(self, item):
+        """Is the given node in this collection, or the given name a field of this collection"""
+        if isinstance(item, Node):
+            return any(n is item for n in self)
+
         return item in self.fieldtypes
 
     def __iter__(self):
-- 
2.43.0


From ebe741907338663ba072671d24d40627e7c82e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 100/108] fix: seeking a boundary stream to a negative position
 gave its header

---
 py/docria/collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index f3a9140..5c39b3d 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -69,6 +69,9 @@ class _BoundaryReader(RawIOBase):
         if whence != SEEK_SET:
             raise NotImplementedError()
 
+        if offset < 0:
+            raise ValueError("negative seek position: %d" % offset)
+
         abs_start_position = self._to_absolute(offset)
         pos = self.inputio.seek(abs_start_position, SEEK_SET)
         assert pos == abs_start_position
-- 
2.43.0


From 077134a99ea797a3064128ac724e5bdf94b39567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 101/108] fix: storage that takes a part of a write lost the
 rest of the data

---
 py/docria/collection.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 5c39b3d..cdf9d11 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -38,6 +38,19 @@ def _module_available(name):
         return False
 
 
+def _write_all(outputio, data):
+    """Write all of the data, raw storage might only take a part of it at a time."""
+    while len(data) > 0:
+        written = outputio.write(data)
+        if written is None:  # Does not tell
+            return
+
+        if written <= 0:
+            raise IOError("The underlying storage does not accept more data.")
+
+        data = data[written:]
+
+
 class _BoundaryReader(RawIOBase):
     """Reads the data of a boundary-framed stream, skipping the boundary markers."""
     def __init__(self, inputio):
@@ -127,7 +140,7 @@ class _BoundaryWriter(RawIOBase):
             raise ValueError("Got invalid boundary value: %d, "
                              "valid value is 12 to 30 which represents 2^12 (4 kiB) to 2^30 (1 GiB)" % boundary)
 
-        self.outputio.write(bytes([boundary]))
+        _write_all(self.outputio, bytes([boundary]))
 
         self.written = 1
         self.lastsplit = 1
@@ -153,7 +166,7 @@ class _BoundaryWriter(RawIOBase):
         if delta <= -0x80000000:
             deltapos = -0x80000000
 
-        self.outputio.write(struct.pack(">i", deltapos))
+        _write_all(self.outputio, struct.pack(">i", deltapos))
 
         self.written += 4
         self.seg += 1
@@ -164,7 +177,7 @@ class _BoundaryWriter(RawIOBase):
 
         maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
         while left > 0:
-            self.outputio.write(data[pos:pos+maxwrite])
+            _write_all(self.outputio, data[pos:pos+maxwrite])
             pos += maxwrite
             self.written += maxwrite
             left -= maxwrite
@@ -463,10 +476,10 @@ class MsgpackDocumentWriter:
         self.outputio = outputio
         self.packer = Packer(use_bin_type=True)
 
-        self.outputio.write(b"Dmf1")
-        self.outputio.write(self.packer.pack(codec.name))
-        self.outputio.write(self.packer.pack(num_docs_per_block))
-        self.outputio.write(self.packer.pack(False))
+        _write_all(self.outputio, b"Dmf1")
+        _write_all(self.outputio, self.packer.pack(codec.name))
+        _write_all(self.outputio, self.packer.pack(num_docs_per_block))
+        _write_all(self.outputio, self.packer.pack(False))
 
         if isinstance(self.outputio, _BoundaryWriter):
             self.outputio.split()
@@ -514,7 +527,7 @@ class MsgpackDocumentWriter:
         This might result in blocks having less than specified number of documents per block.
         """
         if self.current_block_count > 0:
-            self.outputio.write(self.packer.pack(self.codec(self.currentblock.getvalue())))
+            _write_all(self.outputio, self.packer.pack(self.codec(self.currentblock.getvalue())))
 
             if isinstance(self.outputio, _BoundaryWriter):
                 self.outputio.split()
-- 
2.43.0


From ef596b7ce76ed651982f0486cd067fb4049a99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 102/108] fix: a refused write within a boundary-framed block
 damaged the stream

---
 py/docria/collection.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index cdf9d11..8845160 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -158,33 +158,44 @@ class _BoundaryWriter(RawIOBase):
     def split(self):
         self.lastsplit = self.written
 
-    def _write_boundary(self):
-        assert (self.written >> self.boundary) << self.boundary == self.written
-        delta = self.lastsplit - self.written
+    def _boundary_marker(self, position):
+        assert (position >> self.boundary) << self.boundary == position
+        delta = self.lastsplit - position
 
         deltapos = delta
         if delta <= -0x80000000:
             deltapos = -0x80000000
 
-        _write_all(self.outputio, struct.pack(">i", deltapos))
-
-        self.written += 4
-        self.seg += 1
+        return struct.pack(">i", deltapos)
 
     def write(self, data):
+        data = memoryview(data)
         pos = 0
         left = len(data)
+        written = self.written
+        seg = self.seg
+        pieces = []
 
-        maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
+        maxwrite = min(((seg + 1) << self.boundary) - written, left)
         while left > 0:
-            _write_all(self.outputio, data[pos:pos+maxwrite])
+            pieces.append(data[pos:pos+maxwrite])
             pos += maxwrite
-            self.written += maxwrite
+            written += maxwrite
             left -= maxwrite
 
             if left > 0:
-                self._write_boundary()
-                maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
+                pieces.append(self._boundary_marker(written))
+                written += 4
+                seg += 1
+                maxwrite = min(((seg + 1) << self.boundary) - written, left)
+
+        # As a single write, if it fails then it can be done again.
+        _write_all(self.outputio, b"".join(pieces))
+
+        self.written = written
+        self.seg = seg
+
+        return pos
 
     def close(self):
         self.outputio.close()
-- 
2.43.0


From 67d1bcf94dd0c4780c6a649a5efaa31a72dba49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 103/108] fix: unset fields of a column by position raised
 KeyError

---
 py/docria/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 559d643..1ae46a7 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -307,7 +307,11 @@ class NodeFieldCollection(Sized):
         return map(lambda n: n.get(self.field), self.collection)
 
     def __getitem__(self, item):
-        return self.collection[item][self.field]
+        selected = self.collection[item]
+        if isinstance(selected, Node):
+            return selected.get(self.field)
+
+        return selected[self.field]
 
     def to_list(self):
         """Convert this node field collection to a python list with field elements."""
-- 
2.43.0


From 98df4ff2b584d99e7dd0fd8f207639ac7a4c8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 104/108] fix: nodes grouped by span came in an order that
 differs between runs

---
 py/docria/algorithm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 664d17e..2c26502 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -366,8 +366,8 @@ def group_by_span(group_nodes: List[Node],
     # 3. Run sweep, and assign all groups relevant nodes
     groups = dict()  # type: Dict[Node, Dict[str, List[Node]]]
     group_list = list()  # type: List[Tuple[Node, Dict[str, List[Node]]]]
-    open_nodes = set()
-    open_groups = set()
+    open_nodes = dict()  # as ordered sets, members are in the order they start
+    open_groups = dict()
 
     k = 0
     while k < len(node_list_groups):
@@ -376,14 +376,14 @@ def group_by_span(group_nodes: List[Node],
             # Group start
             for _, (layer, node) in nodes:
                 if layer is not None:
-                    open_nodes.add((layer, node))
+                    open_nodes[(layer, node)] = True
                     for open_group in open_groups:
                         groups[open_group][layer].append(node)
                 else:
                     group_dict = {k: [] for k in layer_nodes.keys()}
                     groups[node] = group_dict
                     group_list.append((node, group_dict))
-                    open_groups.add(node)
+                    open_groups[node] = True
 
                     for open_layer, open_node in open_nodes:
                         group_dict[open_layer].append(open_node)
@@ -391,9 +391,9 @@ def group_by_span(group_nodes: List[Node],
             # Group stop
             for _, (layer, node) in nodes:
                 if layer is not None:
-                    open_nodes.remove((layer, node))
+                    del open_nodes[(layer, node)]
                 else:
-                    open_groups.remove(node)
+                    del open_groups[node]
 
         k += 1
 
-- 
2.43.0


From 00ec4d4c8de3b9b08edb1aea701543cbaaf5ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 105/108] fix: Java nodes changed their hash code with edits
 and failed to compare when detached

---
 java/core/src/main/java/se/lth/cs/docria/Node.java | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index 68cb33d..8df10be 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -179,19 +179,12 @@ public class Node extends Value {
 
     @Override
     public boolean equals(Object o) {
-        if (this == o) return true;
-        if (o == null || getClass() != o.getClass()) return false;
-
-        Node node = (Node) o;
-
-        return id == node.id && layer.equals(node.layer);
+        return this == o;
     }
 
     @Override
     public int hashCode() {
-        int result = id;
-        result = 31 * result + layer.hashCode();
-        return result;
+        return System.identityHashCode(this);
     }
 
     @Override
-- 
2.43.0


From 08d1c4645e97b4e87ff462bbca1096a4f90701b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 106/108] fix: Java nodes grouped by span came in hash order

---
 .../src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
index d70292c..913274b 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
@@ -238,7 +238,7 @@ public class GroupBySpan {
             HashSet<Node> open_groups = new HashSet<>();
             HashMap<Node,Group> node2group = new HashMap<>();
 
-            layers.keySet().forEach(key -> open_nodes.put(key, new HashSet<>()));
+            layers.keySet().forEach(key -> open_nodes.put(key, new LinkedHashSet<>()));
 
             for (Point point : points) {
                 switch (point.type) {
-- 
2.43.0


From e994638617bac47a5ec13f9d7d8ff63fc982ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 107/108] fix: a list of nodes was shown as <super: ...>
 instead of its nodes

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1ae46a7..e84e11c 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -564,7 +564,7 @@ class NodeList(list, NodeCollection):
             return None
 
     def __repr__(self):
-        return repr(super())
+        return list.__repr__(self)
 
     def _repr_html_(self):
         tbl = self._table_repr_()
-- 
2.43.0


From 671114b3ab33fb1c5c6902cf59312f92b4e92594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 108/108] fix: the schema a lazy Java document gave could be
 edited under it

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 958fad6..fa70f8f 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -150,7 +150,7 @@ public class MsgpackDocument {
 
     public Schema schema() {
         determineCompartments();
-        return schema;
+        return new Schema(schema);
     }
 
     public Document document() {
-- 
2.43.0

