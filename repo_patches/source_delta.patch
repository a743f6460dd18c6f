From 65ab6f9e495cf5f51048811e2fa9b458c9775404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 01/30] fix: mat: use object dtype directly, np.object was
 removed from NumPy

---
 dsch/backends/mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8b89110..c9fa766 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -87,7 +87,7 @@ class List(npz.List):
         # If the list layer got squeezed away, we need to re-introduce it here
         if not isinstance(data_storage, np.ndarray) \
                 or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=np.object)
+            data_storage = np.array([data_storage], dtype=object)
 
         for field in data_storage:
             subnode = data.data_node_from_schema(self.schema_node.subnode,
@@ -99,12 +99,12 @@ class List(npz.List):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=numpy.object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
-        data_storage = np.zeros((len(self._subnodes),), dtype=np.object)
+        data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
             data_storage[idx] = node.save()
         return data_storage
-- 
2.43.0


From fd8c1121683604bf329852c901847f5dfcb94495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 02/30] fix: copying from a partially filled source no longer
 fails on its empty nodes

---
 dsch/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index 4616bdc..8d588e7 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -151,7 +151,7 @@ class ItemNode:
         This is effectively a shorthand for ``self.replace(source_node.value)``
         with additional checking of node compatibility. Two nodes are
         considered compatible if their ``schema_node`` attributes are
-        identical.
+        identical. If the source node is empty, this node is cleared.
 
         Args:
             source_node: Data node to copy value from.
@@ -159,7 +159,10 @@ class ItemNode:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
-        self.replace(source_node.value)
+        if source_node.empty:
+            self.clear()
+        else:
+            self.replace(source_node.value)
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 967cbc815319e780768eb531b3cc2e607bceb8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 03/30] fix: do not share array objects between a node and its
 copy

---
 dsch/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 8d588e7..080b78f 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -11,6 +11,7 @@ implementing the respective functionality. The classes in this module provide
 common functionality and are intended to be used as base classes.
 Different backends are implemented in the :mod:`dsch.backends` package.
 """
+import copy
 import datetime
 import importlib
 
@@ -162,7 +163,8 @@ class ItemNode:
         if source_node.empty:
             self.clear()
         else:
-            self.replace(source_node.value)
+            # Mutable values (arrays) must not be shared between the two nodes.
+            self.replace(copy.copy(source_node.value))
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 9c611ab3c39d56724387cb2c4f094784f301068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 04/30] fix: List.load_from replaces the previous items instead
 of appending to them

---
 dsch/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 080b78f..3d6b779 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -791,7 +791,8 @@ class List:
     def load_from(self, source_node):
         """Load data by copying from the given source node.
 
-        For Lists, this copies the relevant subnode's data recursively.
+        For Lists, this copies the relevant subnode's data recursively,
+        replacing all current list entries.
 
         Args:
             source_node: Data node to copy value from.
@@ -799,6 +800,9 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        if source_node is self:
+            return
+        self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
             self[idx].load_from(subnode)
-- 
2.43.0


From 710553624cf563838d566c990c2856badf3032ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 05/30] fix: match independent variables to the right dimension
 if depends_on contains None

---
 dsch/data.py   | 2 ++
 dsch/schema.py | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 3d6b779..458c25a 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -319,6 +319,8 @@ class Array(ItemNode):
             if node_name:
                 independent_values.append(getattr(self.parent, node_name)
                                           .value)
+            else:
+                independent_values.append(None)
         self.schema_node.validate(self.value, independent_values)
 
 
diff --git a/dsch/schema.py b/dsch/schema.py
index ce3cf71..3a080ab 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -241,7 +241,8 @@ class Array(SchemaNode):
 
         Args:
             test_data: Data to be validated.
-            independent_values: Values of the independent variables.
+            independent_values: Values of the independent variables, with
+                ``None`` for dimensions that do not depend on any.
 
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
@@ -276,6 +277,9 @@ class Array(SchemaNode):
 
         if self.depends_on:
             for dim, value in zip(test_data.shape, independent_values):
+                if value is None:
+                    # No independent variable for this dimension.
+                    continue
                 if value.ndim > 1:
                     raise ValueError('Independent variable array must be '
                                      'one-dimensional.')
-- 
2.43.0


From a8a396a4f5d59e4da37d62b6a5631ea38647c5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 06/30] fix: schema nodes restored from JSON compare equal to
 the original

---
 dsch/schema.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 3a080ab..eb27dfc 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -184,8 +184,9 @@ class Array(SchemaNode):
 
         self.dtype = dtype
         self.unit = unit
-        self.max_shape = max_shape
-        self.min_shape = min_shape
+        # Shapes and names are lists when coming from JSON
+        self.max_shape = tuple(max_shape) if max_shape else max_shape
+        self.min_shape = tuple(min_shape) if min_shape else min_shape
         if max_shape or min_shape:
             self.ndim = len(max_shape or min_shape)
         else:
@@ -195,7 +196,7 @@ class Array(SchemaNode):
         if isinstance(depends_on, str):
             self.depends_on = (depends_on,)
         else:
-            self.depends_on = depends_on
+            self.depends_on = tuple(depends_on) if depends_on else depends_on
         if self.depends_on and len(self.depends_on) != self.ndim:
             raise ValueError('Number of independent variables must be equal '
                              'to the number of array dimensions.')
@@ -426,7 +427,7 @@ class Compilation(SchemaNode):
                 checking for completeness.
         """
         self.subnodes = subnodes
-        self.optionals = optionals or []
+        self.optionals = list(optionals or [])
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From 949334602cd81ca4cb3d568aa4bfb52f0e297225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 07/30] fix: respect a maximum length of zero

---
 dsch/schema.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index eb27dfc..fe91f95 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -342,7 +342,8 @@ class Bytes(SchemaNode):
         if not isinstance(test_data, bytes):
             raise ValidationError('Invalid type/value.', 'bytes',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and \
+                len(test_data) > self.max_length:
             raise ValidationError('Maximum bytes length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -662,7 +663,8 @@ class List(SchemaNode):
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
         """
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and \
+                len(test_data) > self.max_length:
             raise ValidationError('Maximum list length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -820,7 +822,8 @@ class String(SchemaNode):
         if not isinstance(test_data, str):
             raise ValidationError('Invalid type/value.', 'str',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and \
+                len(test_data) > self.max_length:
             raise ValidationError('Maximum string length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
-- 
2.43.0


From c0ace85ae61fdc923a3bd3f72e3c681605c75867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 08/30] fix: PseudoStorage stays closed if the schema found on
 opening is refused

---
 dsch/frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/frontend.py b/dsch/frontend.py
index 0ea1029..239de3d 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -255,8 +255,9 @@ class PseudoStorage:
             raise RuntimeError('PseudoStorage is already open.')
         if isinstance(self._data_storage, str):
             if os.path.exists(self._data_storage):
-                self.storage = load(self._data_storage)
-                self._verify_schema(self.storage.schema_node)
+                storage = load(self._data_storage)
+                self._verify_schema(storage.schema_node)
+                self.storage = storage
             else:
                 self.storage = create(self._data_storage,
                                       schema_node=self._schema_node)
-- 
2.43.0


From a74b3b6fcd8d0b4af0f9fd0d6bd70f1feba255d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 09/30] fix: allow dtype objects in schemas, as documented

---
 dsch/schema.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index fe91f95..8ac1564 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -212,7 +212,7 @@ class Array(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_shape': self.max_shape,
             'min_shape': self.min_shape,
@@ -732,7 +732,7 @@ class Scalar(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_value': self.max_value,
             'min_value': self.min_value,
@@ -887,6 +887,21 @@ class Time(SchemaNode):
                                   type(test_data))
 
 
+def _dtype_name(dtype):
+    """Return the JSON-serializable name of a NumPy data type.
+
+    Args:
+        dtype (numpy.dtype or str): NumPy data type.
+
+    Returns:
+        str: Name of the data type. Strings are returned as they are.
+    """
+    if isinstance(dtype, str):
+        return dtype
+    dtype = np.dtype(dtype)
+    return dtype.name if dtype.isnative else dtype.str
+
+
 def node_from_dict(node_dict):
     """Create a new node from its ``node_dict``.
 
-- 
2.43.0


From 5386ab13e81c0d1af63245e3840eea9d83879809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 10/30] fix: loading does not fill in cleared set_on_create
 fields

---
 dsch/backends/hdf5.py |  9 ++++++---
 dsch/backends/mat.py  |  7 +++++--
 dsch/backends/npz.py  |  4 +++-
 dsch/data.py          | 27 ++++++++++++++++++++++-----
 4 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 1f37986..ba24809 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -187,7 +187,8 @@ class Compilation(data.Compilation):
                     subnode, self.__module__, self,
                     data_storage=data_storage[node_name])
             else:
-                new_params_sub = {'name': node_name, 'parent': data_storage}
+                new_params_sub = {'name': node_name, 'parent': data_storage,
+                                  'set_on_create': False}
                 self._subnodes[node_name] = data.data_node_from_schema(
                     subnode, self.__module__, self, new_params=new_params_sub)
 
@@ -212,7 +213,8 @@ class Compilation(data.Compilation):
             comp_group = new_params['parent']
 
         for node_name, subnode in self.schema_node.subnodes.items():
-            new_params_sub = {'name': node_name, 'parent': comp_group}
+            new_params_sub = dict(new_params, name=node_name,
+                                  parent=comp_group)
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self, new_params=new_params_sub)
 
@@ -380,7 +382,8 @@ class Storage(storage.FileStorage):
             if 'dsch_data' in self._storage:
                 data_storage = self._storage['dsch_data']
             else:
-                new_params = {'name': 'dsch_data', 'parent': self._storage}
+                new_params = {'name': 'dsch_data', 'parent': self._storage,
+                              'set_on_create': False}
                 self.data = data.data_node_from_schema(self.schema_node,
                                                        self.__module__, None,
                                                        new_params=new_params)
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index c9fa766..37e3283 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -54,7 +54,8 @@ class Compilation(npz.Compilation):
 
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self,
-                data_storage=node_storage)
+                data_storage=node_storage,
+                new_params={'set_on_create': False})
 
 
 class Date(npz.Date):
@@ -134,7 +135,9 @@ class Storage(npz.Storage):
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
-                                               data_storage=data_storage)
+                                               data_storage=data_storage,
+                                               new_params={
+                                                   'set_on_create': False})
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b7901c4..72b03ae 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -247,7 +247,9 @@ class Storage(storage.FileStorage):
             data_storage = stored_data.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
-                                               data_storage=data_storage)
+                                               data_storage=data_storage,
+                                               new_params={
+                                                   'set_on_create': False})
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
diff --git a/dsch/data.py b/dsch/data.py
index 458c25a..2329395 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -473,7 +473,8 @@ class Compilation:
             node_storage = data_storage.get(node_name, None)
             self._subnodes[node_name] = data_node_from_schema(
                 subnode, self.__module__, self,
-                data_storage=node_storage)
+                data_storage=node_storage,
+                new_params={'set_on_create': False})
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -486,7 +487,7 @@ class Compilation:
         """
         for node_name, subnode in self.schema_node.subnodes.items():
             self._subnodes[node_name] = data_node_from_schema(
-                subnode, self.__module__, self)
+                subnode, self.__module__, self, new_params=new_params)
 
     def load_from(self, source_node):
         """Load data by copying from the given source node.
@@ -598,7 +599,7 @@ class Date(ItemNode):
             new_params: Backend-specific metadata for data node creation.
         """
         super()._init_new(new_params)
-        if self.schema_node.set_on_create:
+        if self.schema_node.set_on_create and _is_creation(new_params):
             self.value = datetime.date.today()
 
 
@@ -621,7 +622,7 @@ class DateTime(ItemNode):
             new_params: Backend-specific metadata for data node creation.
         """
         super()._init_new(new_params)
-        if self.schema_node.set_on_create:
+        if self.schema_node.set_on_create and _is_creation(new_params):
             self.value = datetime.datetime.now()
 
 
@@ -931,7 +932,7 @@ class Time(ItemNode):
                 and the HDF5 parent object as ``parent``.
         """
         super()._init_new(new_params)
-        if self.schema_node.set_on_create:
+        if self.schema_node.set_on_create and _is_creation(new_params):
             self.value = datetime.datetime.now().time()
 
 
@@ -963,3 +964,19 @@ def data_node_from_schema(schema_node, module_name, parent, data_storage=None,
     data_node_type = getattr(backend_module, node_type_name)
     return data_node_type(schema_node, parent, data_storage=data_storage,
                           new_params=new_params)
+
+
+def _is_creation(new_params):
+    """Check whether new data nodes really belong to newly created data.
+
+    When loading existing data, nodes without stored data are initialized as
+    new nodes, too. In this case, ``new_params['set_on_create']`` is ``False``
+    because their values must not be set automatically.
+
+    Args:
+        new_params: Backend-specific metadata for data node creation.
+
+    Returns:
+        bool: ``False`` if the node is only restored as an empty node.
+    """
+    return (new_params or {}).get('set_on_create', True)
-- 
2.43.0


From c83e3a51ec27c256bb6619e59ef09ada7c0a15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 11/30] fix: npz: keep empty list items

---
 dsch/backends/npz.py | 31 ++++++++++++++++++++++++++-----
 dsch/data.py         | 23 ++++++++++++++++-------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 72b03ae..edb515e 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -109,9 +109,10 @@ class Compilation(data.Compilation):
             dict: Data storage object with the node's data.
         """
         data_storage = {}
-        for name, node in [(na, no) for na, no in self._subnodes.items()
-                           if not no.empty]:
-            data_storage[name] = node.save()
+        for name, node in self._subnodes.items():
+            node_storage = node.save()
+            if not _is_void(node_storage):
+                data_storage[name] = node_storage
         return data_storage
 
 
@@ -175,14 +176,20 @@ class List(data.List):
 
         For :class:`List`, data is represented as a :class:`dict` containing
         the sub-node's data storage objects as values and keys of the form
-        ``item_X``, where ``X`` is the list index.
+        ``item_X``, where ``X`` is the list index. Empty items have no data
+        storage object, so if there are any, the additional key ``length``
+        holds the number of items.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = {}
         for idx, node in enumerate(self._subnodes):
-            data_storage['item_{}'.format(idx)] = node.save()
+            node_storage = node.save()
+            if _is_void(node_storage):
+                data_storage['length'] = np.array(len(self._subnodes))
+            else:
+                data_storage['item_{}'.format(idx)] = node_storage
         return data_storage
 
 
@@ -322,6 +329,20 @@ class Time(data.Time, _ItemNode):
         return datetime.time(*self._storage.tolist())
 
 
+def _is_void(data_storage):
+    """Check whether a data storage object does not represent any data.
+
+    Args:
+        data_storage: Data storage object, as returned by the data node's
+            ``save`` method.
+
+    Returns:
+        bool: ``True`` if there is nothing to be stored.
+    """
+    return data_storage is None or (isinstance(data_storage, dict) and
+                                    not data_storage)
+
+
 def _inflate_dotted(input_dict):
     """Convert flat dict with dotted key notation into nested dict.
 
diff --git a/dsch/data.py b/dsch/data.py
index 2329395..6c6f1b6 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -767,17 +767,26 @@ class List:
 
         The default implementation expects a dict, where keys are of the form
         "item_X", with X the list index, and values are the corresponding data
-        storage objects. Backend-specific subclasses may change this, if
-        required.
+        storage objects. If there are empty items, which have no data storage
+        object, the number of items is given with the key "length".
+        Backend-specific subclasses may change this, if required.
 
         Args:
             data_storage (dict): Backend-specific data storage object to load.
         """
-        for idx in range(len(data_storage)):
-            node_storage = data_storage['item_{}'.format(idx)]
-            subnode = data_node_from_schema(self.schema_node.subnode,
-                                            self.__module__, self,
-                                            data_storage=node_storage)
+        has_empty_items = 'length' in data_storage
+        length = int(data_storage['length']) if has_empty_items \
+            else len(data_storage)
+        for idx in range(length):
+            key = 'item_{}'.format(idx)
+            if key not in data_storage and has_empty_items:
+                node_storage = None
+            else:
+                node_storage = data_storage[key]
+            subnode = data_node_from_schema(
+                self.schema_node.subnode, self.__module__, self,
+                data_storage=node_storage,
+                new_params={'set_on_create': False})
             self._subnodes.append(subnode)
 
     def _init_new(self, new_params):
-- 
2.43.0


From c7cf8e1f114ec64b7de845903f0c007820ae433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 12/30] fix: hdf5: a failing assignment keeps the previous
 value

---
 dsch/backends/hdf5.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index ba24809..f564519 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -67,9 +67,21 @@ class _ItemNode(data.ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        self._replace_dataset(data=new_value)
+
+    def _replace_dataset(self, **kwargs):
+        """Replace the dataset with a newly created one.
+
+        The new dataset is completely written before the current one is
+        removed. If this fails, the current value is kept.
+
+        Args:
+            **kwargs: Arguments for :meth:`h5py.Group.create_dataset`.
+        """
+        dataset = self._parent.create_dataset(None, **kwargs)
         self.clear()
-        self._storage = self._parent.create_dataset(self._dataset_name,
-                                                    data=new_value)
+        self._parent[self._dataset_name] = dataset
+        self._storage = self._parent[self._dataset_name]
 
 
 class Array(data.Array, _ItemNode):
@@ -85,8 +97,6 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-
         if self.schema_node.max_shape:
             if self.schema_node.max_shape == self.schema_node.min_shape:
                 # For equal shape constraints, disable resizing entirely.
@@ -97,8 +107,7 @@ class Array(data.Array, _ItemNode):
             # Make all dimensions arbitrarily resizable by default.
             maxshape = (None,) * self.schema_node.ndim
 
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._replace_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
             maxshape=maxshape,
@@ -340,9 +349,7 @@ class Scalar(data.Scalar, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._replace_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
         )
-- 
2.43.0


From 1a27445a16a77d3341dcbe66ea13999b147fe67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 13/30] fix: hdf5: Bytes can change their length and be empty

---
 dsch/backends/hdf5.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index f564519..615a0d1 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -135,11 +135,10 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
-            self._storage[()] = np.void(new_value)
-        else:
-            self._storage = self._parent.create_dataset(
-                self._dataset_name, data=np.void(new_value))
+        # The data type includes the length, so the dataset cannot be updated
+        # in place. Also, HDF5 does not support types with a length of zero.
+        super().replace(np.void(new_value) if len(new_value)
+                        else h5py.Empty('S1'))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
@@ -147,7 +146,8 @@ class Bytes(_ItemNode):
         Returns:
             Node data.
         """
-        return self._storage[()].tobytes()
+        value = self._storage[()]
+        return b'' if isinstance(value, h5py.Empty) else value.tobytes()
 
 
 class Bool(_ItemNode):
-- 
2.43.0


From d98716b6260ee04547a45b453b2a6417b17a235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 14/30] fix: npz: keep empty Bytes empty

---
 dsch/backends/npz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index edb515e..cf997cf 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -60,7 +60,9 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='bytes')
+        # For empty values, NumPy would create an array with a single null byte.
+        self._storage = np.array(new_value if len(new_value) else [],
+                                 dtype='bytes')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 9f3919e166f8db6f71661585e404f8acaec2a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 15/30] fix: appending an unacceptable value to a list does not
 leave an empty item behind

---
 dsch/backends/hdf5.py | 9 +++++++--
 dsch/data.py          | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 615a0d1..e0e0477 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -302,9 +302,14 @@ class List(data.List):
         subnode = data.data_node_from_schema(self.schema_node.subnode,
                                              self.__module__, self,
                                              new_params=new_params)
-        self._subnodes.append(subnode)
         if value is not None:
-            subnode.replace(value)
+            try:
+                subnode.replace(value)
+            except Exception:
+                if new_params['name'] in self._storage:
+                    del self._storage[new_params['name']]
+                raise
+        self._subnodes.append(subnode)
 
     def clear(self):
         """Clear all subnodes."""
diff --git a/dsch/data.py b/dsch/data.py
index 6c6f1b6..15e8baf 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -680,9 +680,9 @@ class List:
         """
         subnode = data_node_from_schema(self.schema_node.subnode,
                                         self.__module__, self)
-        self._subnodes.append(subnode)
         if value is not None:
             subnode.replace(value)
+        self._subnodes.append(subnode)
 
     def clear(self):
         """Clear all sub-nodes.
-- 
2.43.0


From d88b8a2c96ef94768c458e681e1e454f1317f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 16/30] fix: hdf5: keep empty list items

---
 dsch/backends/hdf5.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index e0e0477..b2e64ea 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -310,12 +310,15 @@ class List(data.List):
                     del self._storage[new_params['name']]
                 raise
         self._subnodes.append(subnode)
+        # Empty items do not have a dataset, so they must be counted separately.
+        self._storage.attrs.modify('length', len(self))
 
     def clear(self):
         """Clear all subnodes."""
         for name in self._storage.keys():
             del self._storage[name]
         super().clear()
+        self._storage.attrs.modify('length', 0)
 
     def _init_from_storage(self, data_storage):
         """Create a new data node from a data storage object.
@@ -326,8 +329,21 @@ class List(data.List):
             data_storage (h5py.Dataset): Data storage object to be
                 imported.
         """
-        super()._init_from_storage(data_storage)
         self._storage = data_storage
+        has_empty_items = 'length' in data_storage.attrs
+        length = max([data_storage.attrs.get('length', 0)] +
+                     [int(name.split('_')[-1]) + 1 for name in data_storage])
+        for idx in range(length):
+            name = 'item_{}'.format(idx)
+            if name not in data_storage and has_empty_items:
+                node_storage = None
+            else:
+                node_storage = data_storage[name]
+            self._subnodes.append(data.data_node_from_schema(
+                self.schema_node.subnode, self.__module__, self,
+                data_storage=node_storage,
+                new_params={'name': name, 'parent': data_storage,
+                            'set_on_create': False}))
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
-- 
2.43.0


From 15c2e1ff9f89b3bb7e785cee40850410409d3790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 17/30] fix: npz, mat: use exactly the given file name

---
 dsch/backends/mat.py | 6 ++++--
 dsch/backends/npz.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 37e3283..ed75988 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -130,7 +130,8 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, squeeze_me=True)
+        file_ = sio.loadmat(self.storage_path, appendmat=False,
+                            squeeze_me=True)
         self.schema_node = schema.node_from_json(file_['schema'])
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
@@ -145,7 +146,8 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data)
+        with open(self.storage_path, 'wb') as file_:
+            sio.savemat(file_, store_data)
 
 
 class String(npz.String):
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index cf997cf..9342a49 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -277,8 +277,9 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        np.savez(self.storage_path, _schema=self.schema_node.to_json(),
-                 **store_data)
+        # When given a path, NumPy might append a file name extension.
+        with open(self.storage_path, 'wb') as file_:
+            np.savez(file_, _schema=self.schema_node.to_json(), **store_data)
 
 
 class String(_ItemNode):
-- 
2.43.0


From fd90d93fc32964cd05c20fc2a297601b18f20c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 18/30] fix: npz, mat: a failing or interrupted save does not
 destroy the stored version

---
 dsch/backends/mat.py |  3 +--
 dsch/backends/npz.py |  5 ++---
 dsch/storage.py      | 41 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index ed75988..a1355fa 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -146,8 +146,7 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        with open(self.storage_path, 'wb') as file_:
-            sio.savemat(file_, store_data)
+        self._replace_file(lambda file_: sio.savemat(file_, store_data))
 
 
 class String(npz.String):
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 9342a49..64f9437 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -277,9 +277,8 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        # When given a path, NumPy might append a file name extension.
-        with open(self.storage_path, 'wb') as file_:
-            np.savez(file_, _schema=self.schema_node.to_json(), **store_data)
+        self._replace_file(lambda file_: np.savez(
+            file_, _schema=self.schema_node.to_json(), **store_data))
 
 
 class String(_ItemNode):
diff --git a/dsch/storage.py b/dsch/storage.py
index c561149..533cacd 100644
--- a/dsch/storage.py
+++ b/dsch/storage.py
@@ -12,7 +12,10 @@ This module provides base classes for backends to derive from, so that common
 functionality may be implemented in a single place without unnecessary
 repetition.
 """
+import contextlib
 import os
+import shutil
+import uuid
 
 from . import frontend
 
@@ -202,3 +205,41 @@ class FileStorage(Storage):
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
         raise NotImplementedError('To be implemented in subclass.')
+
+    def _replace_file(self, write):
+        """Replace the file in :attr:`storage_path` with a new version.
+
+        The new version is completely written to a temporary file before it
+        takes the place of the current one. That way, the current version is
+        only lost when the new one is known to be complete, regardless of any
+        errors or crashes on the way.
+
+        Args:
+            write (callable): Function that writes the new content to a given
+                (binary) file object.
+        """
+        path = os.path.realpath(self.storage_path)
+        dir_name = os.path.dirname(path)
+        temp_path = os.path.join(dir_name,
+                                 '.dsch-{}.tmp'.format(uuid.uuid4().hex))
+        try:
+            with open(temp_path, 'xb') as file_:
+                write(file_)
+                file_.flush()
+                os.fsync(file_.fileno())
+            if os.path.exists(path):
+                # Fail for write-protected files and keep their permissions.
+                open(path, 'r+b').close()
+                shutil.copymode(path, temp_path)
+            os.replace(temp_path, path)
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.unlink(temp_path)
+            raise
+        if os.name == 'posix':
+            # Make sure that the directory entry is on disk, too.
+            dir_fd = os.open(dir_name, os.O_RDONLY)
+            try:
+                os.fsync(dir_fd)
+            finally:
+                os.close(dir_fd)
-- 
2.43.0


From 7a4f15db459e0c4a62ebe74c603c2e4fde53e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 19/30] fix: npz: support fields named like arguments of
 numpy.savez

---
 dsch/backends/npz.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 64f9437..6067b53 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -5,6 +5,7 @@ This backend provides support for NumPy's npz format. For details, see
 enhancement proposal <https://docs.scipy.org/doc/numpy/neps/npy-format.html>`_.
 """
 import datetime
+import zipfile
 
 import numpy as np
 
@@ -277,8 +278,8 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        self._replace_file(lambda file_: np.savez(
-            file_, _schema=self.schema_node.to_json(), **store_data))
+        self._replace_file(lambda file_: _write_npz(
+            file_, dict(_schema=self.schema_node.to_json(), **store_data)))
 
 
 class String(_ItemNode):
@@ -404,3 +405,20 @@ def _flatten_dotted(input_dict, prefix=''):
         else:
             output_dict[dotted] = value
     return output_dict
+
+
+def _write_npz(file_, arrays):
+    """Write arrays to a file in the ``.npz`` format.
+
+    In contrast to :func:`numpy.savez`, this does not restrict the names that
+    can be used.
+
+    Args:
+        file_: Binary file object to write to.
+        arrays (dict): Arrays by name.
+    """
+    with zipfile.ZipFile(file_, 'w', zipfile.ZIP_STORED) as zip_file:
+        for name, array in arrays.items():
+            with zip_file.open(name + '.npy', 'w', force_zip64=True) as entry:
+                np.lib.format.write_array(entry, np.asanyarray(array),
+                                          allow_pickle=False)
-- 
2.43.0


From 2939a18c07a88634cc9e12cdc926e5dd9f4f797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 20/30] fix: mat: restore array shapes and data types,
 single-item lists, Bytes and empty strings

---
 dsch/backends/mat.py | 115 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 93 insertions(+), 22 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index a1355fa..ecaea0d 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -7,12 +7,53 @@ from .. import data, schema
 
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        MATLAB arrays have at least two dimensions and MATLAB does not know
+        all of NumPy's data types. If the array was changed when saving it for
+        one of these reasons, this is reverted here.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to be imported.
+        """
+        if self.schema_node.ndim < data_storage.ndim == 2 \
+                and (data_storage.shape[0] == 1 or data_storage.size == 0):
+            if self.schema_node.ndim == 1:
+                data_storage = data_storage.ravel()
+            elif data_storage.size == 1:
+                data_storage = data_storage.reshape(())
+        dtype = np.dtype(self.schema_node.dtype)
+        matlab_dtype = {'bool': 'uint8', 'float16': 'float64'}.get(
+            dtype.name, dtype.newbyteorder('='))
+        if data_storage.dtype == matlab_dtype:
+            data_storage = data_storage.astype(dtype, copy=False)
+        super()._init_from_storage(data_storage)
 
 
 class Bytes(npz.Bytes):
     """Bytes-type data node for the mat backend."""
-    pass
+
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Since MATLAB has no bytes type, the value is represented as an array of
+        unsigned integers.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        self._storage = np.frombuffer(new_value, dtype='uint8')
+
+    def _value(self):
+        """Return the actual node data, independent of the backend in use.
+
+        Returns:
+            Node data.
+        """
+        return self._storage.tobytes()
 
 
 class Bool(npz.Bool):
@@ -37,11 +78,8 @@ class Compilation(npz.Compilation):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # For Compilation inside Compilation, scipy.io.loadmat seems to wrap
-        # the inner Compilation in an additional scalar ndarray with dtype
-        # object. This must be ignored, if present.
-        if data_storage.shape == ():
-            data_storage = data_storage[()]
+        # MATLAB structs are always arrays with at least two dimensions.
+        data_storage = np.ravel(data_storage)[0]
 
         for node_name, subnode in self.schema_node.subnodes.items():
             # Work around the fact that we cannot use
@@ -60,12 +98,26 @@ class Compilation(npz.Compilation):
 
 class Date(npz.Date):
     """Date-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to be imported.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
 
 
 class DateTime(npz.DateTime):
     """DateTime-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to be imported.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
 
 
 class List(npz.List):
@@ -85,12 +137,8 @@ class List(npz.List):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # If the list layer got squeezed away, we need to re-introduce it here
-        if not isinstance(data_storage, np.ndarray) \
-                or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=object)
-
-        for field in data_storage:
+        # MATLAB cell arrays always have at least two dimensions.
+        for field in np.ravel(data_storage):
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
@@ -113,7 +161,14 @@ class List(npz.List):
 
 class Scalar(npz.Scalar):
     """Scalar-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to be imported.
+        """
+        super()._init_from_storage(np.ravel(data_storage)[0])
 
 
 class Storage(npz.Storage):
@@ -130,9 +185,9 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, appendmat=False,
-                            squeeze_me=True)
-        self.schema_node = schema.node_from_json(file_['schema'])
+        file_ = sio.loadmat(self.storage_path, appendmat=False)
+        self.schema_node = schema.node_from_json(
+            str(np.ravel(file_['schema'])[0]))
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
@@ -144,16 +199,32 @@ class Storage(npz.Storage):
         """Save the current data to the file in :attr:`storage_path`."""
         store_data = {'schema': self.schema_node.to_json()}
         output_data = self.data.save()
-        if output_data is not None:
+        if not npz._is_void(output_data):
             store_data['data'] = output_data
         self._replace_file(lambda file_: sio.savemat(file_, store_data))
 
 
 class String(npz.String):
     """String-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to be imported.
+        """
+        # Empty strings result in an empty array.
+        data_storage = np.ravel(data_storage)
+        self.replace(data_storage[0] if data_storage.size else '')
 
 
 class Time(npz.Time):
     """Time-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to be imported.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
-- 
2.43.0


From 8c630259e30eeaf659d07ccfb04fa8e2656b320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 21/30] fix: mat: keep empty list items

---
 dsch/backends/mat.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index ecaea0d..74789fb 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -139,9 +139,12 @@ class List(npz.List):
         """
         # MATLAB cell arrays always have at least two dimensions.
         for field in np.ravel(data_storage):
-            subnode = data.data_node_from_schema(self.schema_node.subnode,
-                                                 self.__module__, self,
-                                                 data_storage=field)
+            # Empty items are represented by an empty cell array.
+            if field.dtype == object and field.size == 0:
+                field = None
+            subnode = data.data_node_from_schema(
+                self.schema_node.subnode, self.__module__, self,
+                data_storage=field, new_params={'set_on_create': False})
             self._subnodes.append(subnode)
 
     def save(self):
@@ -155,7 +158,11 @@ class List(npz.List):
         """
         data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
-            data_storage[idx] = node.save()
+            node_storage = node.save()
+            if npz._is_void(node_storage):
+                # Represent empty items by an empty cell array.
+                node_storage = np.zeros((0,), dtype=object)
+            data_storage[idx] = node_storage
         return data_storage
 
 
-- 
2.43.0


From 731203cfa107e6958b086ed77fc40328f9cd1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 22/30] fix: mat: support field names of up to 63 characters

---
 dsch/backends/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 74789fb..2db4290 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -208,7 +208,8 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if not npz._is_void(output_data):
             store_data['data'] = output_data
-        self._replace_file(lambda file_: sio.savemat(file_, store_data))
+        self._replace_file(lambda file_: sio.savemat(file_, store_data,
+                                                     long_field_names=True))
 
 
 class String(npz.String):
-- 
2.43.0


From 8a97f7e92d3d5f081bc05270a4d9c34400c55993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 23/30] fix: hdf5: write changes to the file only when saving

As documented, changes to the data must not be written to disk unless the
storage is saved. With the file opened directly, unsaved changes ended up in
the file when it was closed, and a crash while saving could destroy the last
saved version. Work on a copy in memory and replace the file on saving, like
the other backends do.
---
 dsch/backends/hdf5.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index b2e64ea..6268eb1 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -4,6 +4,7 @@ This backend provides support for the HDF5 file format. :mod:`h5py` is used as
 the interface.
 """
 import datetime
+import uuid
 
 import h5py
 import numpy as np
@@ -399,7 +400,10 @@ class Storage(storage.FileStorage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        self._storage = h5py.File(self.storage_path, 'r+')
+        # Work on a copy in memory, so that nothing is changed without saving.
+        with open(self.storage_path, 'rb') as file_:
+            self._storage = h5py.File(h5py.h5f.open_file_image(
+                file_.read(), flags=h5py.h5f.FILE_IMAGE_OPEN_RW))
         self.schema_node = schema.node_from_json(
             self._storage.attrs['dsch_schema'])
         if isinstance(self.schema_node, schema.Compilation):
@@ -422,7 +426,9 @@ class Storage(storage.FileStorage):
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
-        self._storage = h5py.File(self.storage_path, 'x')
+        # Files in memory are distinguished by their name, too.
+        self._storage = h5py.File(uuid.uuid4().hex, 'x', driver='core',
+                                  backing_store=False)
         self._storage.attrs['dsch_schema'] = self.schema_node.to_json()
         if isinstance(self.schema_node, schema.Compilation):
             new_params = {'name': '', 'parent': self._storage}
@@ -437,6 +443,8 @@ class Storage(storage.FileStorage):
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
         self._storage.flush()
+        self._replace_file(
+            lambda file_: file_.write(self._storage.id.get_file_image()))
 
 
 class String(_ItemNode):
-- 
2.43.0


From 8807f3c4fc2e49fc310559ba492f7a63b9fd010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 24/30] fix: mat: keep fields with names starting with an
 underscore or a digit

---
 dsch/backends/mat.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 2db4290..2b23d4a 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -95,6 +95,23 @@ class Compilation(npz.Compilation):
                 data_storage=node_storage,
                 new_params={'set_on_create': False})
 
+    def save(self):
+        """Export the node data as a data storage object.
+
+        For the mat backend, Compilation data is represented as a NumPy
+        structured array. If given a :class:`dict`, SciPy would drop fields
+        with a name starting with an underscore or a digit.
+
+        Returns:
+            numpy.ndarray: Data storage object with the node's data, or an
+            empty :class:`dict` if there is no data.
+        """
+        data_storage = super().save()
+        if npz._is_void(data_storage):
+            return data_storage
+        return np.array([tuple(data_storage.values())],
+                        dtype=[(name, object) for name in data_storage])
+
 
 class Date(npz.Date):
     """Date-type data node for the mat backend."""
-- 
2.43.0


From 15ef29b7935b7e5df92f56a29969a1799accd987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:10 +0000
Subject: [PATCH 25/30] fix: npz, hdf5: a Bool accepts valid values after an
 unsuitable one

---
 dsch/backends/hdf5.py | 1 +
 dsch/backends/npz.py  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 6268eb1..6456962 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -164,6 +164,7 @@ class Bool(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        new_value = bool(new_value)
         if self._storage:
             self._storage[()] = new_value
         else:
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 6067b53..5f119e0 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -87,7 +87,7 @@ class Bool(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array([new_value], dtype='bool')
+        self._storage = np.array([bool(new_value)])
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 684b435bdcb191bb8ae8cb5ac36074d9b67ec127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:42 +0000
Subject: [PATCH 26/30] fix: mat: saving from several threads at once does not
 corrupt the files

---
 dsch/backends/mat.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 2b23d4a..3b2e3f7 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -1,9 +1,15 @@
+import threading
+
 import numpy as np
 import scipy.io as sio
 
 from . import npz
 from .. import data, schema
 
+# SciPy's writer keeps parts of its state in class attributes, so files written
+# by several threads at the same time would get corrupted.
+_SAVEMAT_LOCK = threading.Lock()
+
 
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
@@ -225,8 +231,11 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if not npz._is_void(output_data):
             store_data['data'] = output_data
-        self._replace_file(lambda file_: sio.savemat(file_, store_data,
-                                                     long_field_names=True))
+
+        def write(file_):
+            with _SAVEMAT_LOCK:
+                sio.savemat(file_, store_data, long_field_names=True)
+        self._replace_file(write)
 
 
 class String(npz.String):
-- 
2.43.0


From 9a5365948f5362b06d7a6f0903141c1dceef4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:34 +0000
Subject: [PATCH 27/30] fix: hdf5: keep items cleared in lists from files of
 earlier versions

---
 dsch/backends/hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 6456962..e0647c5 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -346,6 +346,8 @@ class List(data.List):
                 data_storage=node_storage,
                 new_params={'name': name, 'parent': data_storage,
                             'set_on_create': False}))
+        # Items may be cleared later on, even if they could not be empty before.
+        self._storage.attrs.modify('length', len(self))
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
-- 
2.43.0


From d3691fa879d88c47e48c01ed2b75986563965bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 28/30] fix: hdf5: a String accepts valid values after an
 unsuitable one

---
 dsch/backends/hdf5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index e0647c5..5dc3c53 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -463,11 +463,10 @@ class String(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
+        if self._storage and h5py.check_string_dtype(self._storage.dtype):
             self._storage[()] = new_value
         else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
+            self._replace_dataset(data=new_value)
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 1d78995752b5e162c3cccba6dbdd44992780a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 29/30] fix: npz, mat, inmem: resizing keeps array elements in
 place

---
 dsch/backends/hdf5.py | 11 +++++++++++
 dsch/data.py          | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 5dc3c53..8edf6f6 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -114,6 +114,17 @@ class Array(data.Array, _ItemNode):
             maxshape=maxshape,
         )
 
+    def resize(self, size):
+        """Resize the array to the desired size.
+
+        All elements within the desired size keep their value and position,
+        new elements are set to zero.
+
+        Args:
+            size (tuple): Desired array size.
+        """
+        self._storage.resize(size)
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
diff --git a/dsch/data.py b/dsch/data.py
index 15e8baf..209e6ec 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -16,6 +16,7 @@ import datetime
 import importlib
 
 import asciitree
+import numpy as np
 
 from . import exceptions
 
@@ -293,10 +294,21 @@ class Array(ItemNode):
     def resize(self, size):
         """Resize the array to the desired size.
 
+        All elements within the desired size keep their value and position,
+        new elements are set to zero.
+
         Args:
             size (tuple): Desired array size.
         """
-        self._storage.resize(size)
+        # NumPy's own resizing moves the elements of multi-dimensional arrays
+        # and refuses to work on arrays that are referenced elsewhere.
+        resized = np.zeros(size, dtype=self._storage.dtype)
+        if resized.ndim != self._storage.ndim:
+            raise ValueError('The number of dimensions cannot be changed.')
+        common = tuple(slice(min(lengths)) for lengths
+                       in zip(resized.shape, self._storage.shape))
+        resized[common] = self._storage[common]
+        self._storage = resized
 
     def __setitem__(self, key, value):
         """Pass slicing/indexing operations directly to NumPy array."""
-- 
2.43.0


From 027a2cc2ef2a0367d357ec2d58322c8dde2d7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 30/30] fix: mat: editing a loaded array does not affect other
 data

---
 dsch/backends/mat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 3b2e3f7..5b4e619 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -35,7 +35,9 @@ class Array(npz.Array):
             dtype.name, dtype.newbyteorder('='))
         if data_storage.dtype == matlab_dtype:
             data_storage = data_storage.astype(dtype, copy=False)
-        super()._init_from_storage(data_storage)
+        # SciPy may return single bytes as (writable!) views of constants that
+        # are shared by the whole interpreter.
+        super()._init_from_storage(data_storage.copy())
 
 
 class Bytes(npz.Bytes):
-- 
2.43.0

