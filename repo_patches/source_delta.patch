From 9f6bea6274cb61f56ff11c7a267583bca0dc5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 01/61] fix: distinguish results of different option values
 exactly

Results were stored under hash() of the options, which is equal for
different values (-1 and -2, 1 and True, '' and 0, [] and {}), so aliases of
one field or link could get each other's values, and merge() dropped one of
them.
---
 hiku/query.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 23fe845..be56898 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -51,14 +51,16 @@ from collections.abc import Sequence
 from .utils import cached_property
 
 
-def _compute_hash(obj):
+def _compute_key(obj):
+    # exact and hashable: hash() alone is the same for different values
+    # (-1 and -2, 1 and True, [] and {}), and then their results would mix
     if isinstance(obj, dict):
-        return hash(tuple((_compute_hash(k), _compute_hash(v))
-                          for k, v in sorted(obj.items())))
-    elif isinstance(obj, list):
-        return hash(tuple(_compute_hash(i) for i in obj))
+        return dict, frozenset((_compute_key(k), _compute_key(v))
+                               for k, v in obj.items())
+    elif isinstance(obj, (list, tuple)):
+        return list, tuple(_compute_key(i) for i in obj)
     else:
-        return hash(obj)
+        return obj.__class__, obj
 
 
 class Base:
@@ -96,14 +98,14 @@ class FieldBase(Base):
     @cached_property
     def options_hash(self):
         if self.options:
-            return _compute_hash(self.options)
+            return _compute_key(self.options)
         else:
             return None
 
     @cached_property
     def index_key(self):
         if self.options_hash is not None:
-            return '{}[{}]'.format(self.name, self.options_hash)
+            return self.name, self.options_hash
         else:
             return self.name
 
-- 
2.43.0


From bdb528da58254227ee19fafab83755fcc4ae21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 02/61] fix: keep the order of fields and links when merging
 ordered queries

merge() moved all links after all fields, so a mutation which mentions a
link before a field ran them in the wrong order.
---
 hiku/query.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index be56898..1182fe6 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -175,12 +175,16 @@ class Node(Base):
         return visitor.visit_node(self)
 
 
+def _merge_key(field):
+    return field.name, field.options_hash, field.alias
+
+
 def _merge(nodes):
     fields = set()
     links = {}
     to_merge = OrderedDict()
     for field in chain.from_iterable(e.fields for e in nodes):
-        key = (field.name, field.options_hash, field.alias)
+        key = _merge_key(field)
         if field.__class__ is Link:
             if key not in to_merge:
                 to_merge[key] = [field.node]
@@ -204,7 +208,12 @@ def merge(nodes):
     """
     assert isinstance(nodes, Sequence), type(nodes)
     ordered = any(n.ordered for n in nodes)
-    return Node(list(_merge(nodes)), ordered=ordered)
+    fields = list(_merge(nodes))
+    if ordered:
+        # fields and links are computed in the order of their first appearance
+        keys = [_merge_key(f) for n in nodes for f in n.fields]
+        fields.sort(key=lambda f: keys.index(_merge_key(f)))
+    return Node(fields, ordered=ordered)
 
 
 class QueryVisitor:
-- 
2.43.0


From c14330f10a3d987d9465615a656996a115a0ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 03/61] fix: merge equal links when one of them is aliased with
 its own name

{ a { x } a: a { y } } is a valid query, but its two links were kept apart
under one resulting name, and the data of the first one was lost.
---
 hiku/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/query.py b/hiku/query.py
index 1182fe6..affb443 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -176,7 +176,7 @@ class Node(Base):
 
 
 def _merge_key(field):
-    return field.name, field.options_hash, field.alias
+    return field.name, field.options_hash, field.result_key
 
 
 def _merge(nodes):
-- 
2.43.0


From c9506b4d3d86bbee02200cde470b71c9ee1a11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 04/61] fix: result.denormalize for aliases and named types in
 complex fields

Aliases inside complex fields were ignored, and a data type referenced
inside Optional, Sequence or another record raised AssertionError.
---
 hiku/result.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hiku/result.py b/hiku/result.py
index 318e1c4..3f4c27a 100644
--- a/hiku/result.py
+++ b/hiku/result.py
@@ -102,22 +102,24 @@ class Proxy:
             raise AttributeError(e)
 
 
-def _denormalize_type(type_, result, query_obj):
+def _denormalize_type(types, type_, result, query_obj):
     if isinstance(query_obj, Field):
         return result
     elif isinstance(query_obj, Link):
+        type_ = get_type(types, type_)
         if isinstance(type_, SequenceMeta):
-            return [_denormalize_type(type_.__item_type__, item, query_obj)
+            return [_denormalize_type(types, type_.__item_type__, item,
+                                      query_obj)
                     for item in result]
         elif isinstance(type_, OptionalMeta):
-            return (_denormalize_type(type_.__type__, result, query_obj)
+            return (_denormalize_type(types, type_.__type__, result, query_obj)
                     if result is not None else None)
         else:
             assert isinstance(type_, RecordMeta), type(type_)
             field_types = type_.__field_types__
             return {
-                f.name: _denormalize_type(field_types[f.name],
-                                          result[f.name], f)
+                f.result_key: _denormalize_type(types, field_types[f.name],
+                                                result[f.name], f)
                 for f in query_obj.node.fields
             }
     assert False, (type_, query_obj)
@@ -136,8 +138,8 @@ def _denormalize(graph, graph_obj, result, query_obj):
 
     elif isinstance(query_obj, Link):
         if isinstance(graph_obj, GraphField):
-            field_type = get_type(graph.data_types, graph_obj.type)
-            return _denormalize_type(field_type, result, query_obj)
+            return _denormalize_type(graph.data_types, graph_obj.type, result,
+                                     query_obj)
 
         elif isinstance(graph_obj, GraphLink):
             graph_node = graph.nodes_map[graph_obj.node]
-- 
2.43.0


From a0360341d81a8fcf48f0e50880a610ac1855d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 05/61] fix: Denormalize for aliases and records in complex
 fields

Aliases inside complex fields raised KeyError, and records defined in place
(not as a named data type) raised AssertionError.
---
 hiku/denormalize/base.py    | 22 +++++++++++++++-------
 hiku/denormalize/graphql.py |  9 ++++-----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index 8178bca..dfb2462 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -1,7 +1,9 @@
 from collections import deque
 
 from ..query import QueryVisitor, Link, Field
-from ..types import TypeRefMeta, OptionalMeta, SequenceMeta, get_type
+from ..types import TypeRefMeta, OptionalMeta, SequenceMeta, RecordMeta
+from ..types import get_type
+from ..result import Proxy
 
 
 class Denormalize(QueryVisitor):
@@ -19,15 +21,21 @@ class Denormalize(QueryVisitor):
         self.visit(query)
         return self._res.pop()
 
+    def _get_value(self, obj):
+        data = self._data[-1]
+        # values of complex fields are stored as is, without aliases
+        key = obj.result_key if isinstance(data, Proxy) else obj.name
+        return data[key]
+
     def visit_field(self, obj: Field):
-        self._res[-1][obj.result_key] = self._data[-1][obj.result_key]
+        self._res[-1][obj.result_key] = self._get_value(obj)
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
-        if isinstance(type_, TypeRefMeta):
+        if isinstance(type_, (TypeRefMeta, RecordMeta)):
             self._type.append(get_type(self._types, type_))
             self._res.append({})
-            self._data.append(self._data[-1][obj.result_key])
+            self._data.append(self._get_value(obj))
             super().visit_link(obj)
             self._data.pop()
             self._res[-1][obj.result_key] = self._res.pop()
@@ -35,7 +43,7 @@ class Denormalize(QueryVisitor):
         elif isinstance(type_, SequenceMeta):
             self._type.append(get_type(self._types, type_.__item_type__))
             items = []
-            for item in self._data[-1][obj.result_key]:
+            for item in self._get_value(obj):
                 self._res.append({})
                 self._data.append(item)
                 super().visit_link(obj)
@@ -44,12 +52,12 @@ class Denormalize(QueryVisitor):
             self._res[-1][obj.result_key] = items
             self._type.pop()
         elif isinstance(type_, OptionalMeta):
-            if self._data[-1][obj.result_key] is None:
+            if self._get_value(obj) is None:
                 self._res[-1][obj.result_key] = None
             else:
                 self._type.append(get_type(self._types, type_.__type__))
                 self._res.append({})
-                self._data.append(self._data[-1][obj.result_key])
+                self._data.append(self._get_value(obj))
                 super().visit_link(obj)
                 self._data.pop()
                 self._res[-1][obj.result_key] = self._res.pop()
diff --git a/hiku/denormalize/graphql.py b/hiku/denormalize/graphql.py
index f3aedb5..d33c1b9 100644
--- a/hiku/denormalize/graphql.py
+++ b/hiku/denormalize/graphql.py
@@ -1,7 +1,7 @@
 from collections import deque
 
 from ..query import Field, Link
-from ..types import TypeRefMeta, SequenceMeta, OptionalMeta
+from ..types import TypeRefMeta, SequenceMeta, OptionalMeta, RecordMeta
 
 from .base import Denormalize
 
@@ -20,16 +20,15 @@ class DenormalizeGraphQL(Denormalize):
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
-        if isinstance(type_, TypeRefMeta):
+        if isinstance(type_, (TypeRefMeta, RecordMeta)):
             type_ref = type_
         elif isinstance(type_, SequenceMeta):
             type_ref = type_.__item_type__
-            assert isinstance(type_ref, TypeRefMeta), type_ref
         elif isinstance(type_, OptionalMeta):
             type_ref = type_.__type__
-            assert isinstance(type_ref, TypeRefMeta), type_ref
         else:
             raise AssertionError(repr(type_))
-        self._type_name.append(type_ref.__type_name__)
+        # records which are defined in place have no name
+        self._type_name.append(getattr(type_ref, '__type_name__', None))
         super().visit_link(obj)
         self._type_name.pop()
-- 
2.43.0


From 1d7aaccc8520ebb43d293a409c4994ac25fd66b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 06/61] fix: give fields required by links their default
 options

A field which is loaded only because a link requires it was passed to its
loading function without the declared options.
---
 hiku/engine.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 4389dd3..a5a97d0 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -27,6 +27,15 @@ def _get_options(graph_obj, query_obj):
     return dict(_yield_options(graph_obj, query_obj))
 
 
+def _required_field(node, graph_link):
+    graph_obj = node.fields_map[graph_link.requires]
+    query_obj = hiku_query.Field(graph_link.requires)
+    if graph_obj.options:
+        return query_obj.copy(options=_get_options(graph_obj, query_obj))
+    else:
+        return query_obj
+
+
 class InitOptions(hiku_query.QueryTransformer):
 
     def __init__(self, graph):
@@ -81,7 +90,7 @@ class SplitQuery(hiku_query.QueryVisitor):
         graph_obj = self._node.fields_map[obj.name]
         if isinstance(graph_obj, Link):
             if graph_obj.requires:
-                self.visit(hiku_query.Field(graph_obj.requires))
+                self.visit(_required_field(self._node, graph_obj))
             self._links.append((graph_obj, obj))
         else:
             assert isinstance(graph_obj, Field), type(graph_obj)
@@ -119,7 +128,7 @@ class GroupQuery(hiku_query.QueryVisitor):
     def visit_link(self, obj):
         graph_obj = self._node.fields_map[obj.name]
         if graph_obj.requires:
-            self.visit(hiku_query.Field(graph_obj.requires))
+            self.visit(_required_field(self._node, graph_obj))
         self._groups.append((graph_obj, obj))
         self._funcs.append(graph_obj.func)
         self._current_func = None
@@ -169,12 +178,13 @@ def store_fields(index, node, query_fields, ids, query_result):
 
 
 def link_reqs(index, node, link, ids):
+    key = _required_field(node, link).index_key
     if node.name is not None:
         assert ids is not None
         node_idx = index[node.name]
-        return [node_idx[i][link.requires] for i in ids]
+        return [node_idx[i][key] for i in ids]
     else:
-        return index.root[link.requires]
+        return index.root[key]
 
 
 def link_ref_maybe(graph_link, ident):
-- 
2.43.0


From f2a0a2be40df72884e19fa288f9bdd6970de5067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 07/61] fix: do not accept strings as values of Sequence
 options

---
 hiku/validate/query.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 94477fc..84a4a0e 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -136,7 +136,10 @@ class _OptionTypeValidator:
             self.visit(type_.__type__)
 
     def visit_sequence(self, type_):
-        if not isinstance(self.value, collections_abc.Sequence):
+        if (
+            not isinstance(self.value, collections_abc.Sequence)
+            or isinstance(self.value, (str, bytes))
+        ):
             raise _OptionTypeError(self.value, type_)
         for item in self.value:
             with self.push(item):
-- 
2.43.0


From 663305f2bd22c05c89608f980a50d56477d7bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 08/61] fix: validation of links inside complex fields

An unknown link inside a complex field made validation raise KeyError, and
options of such links were accepted although nothing can receive them.
---
 hiku/validate/query.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 84a4a0e..3d31af9 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -235,6 +235,11 @@ class _RecordFieldsValidator(QueryVisitor):
                                 .format(obj.name))
 
     def visit_link(self, obj):
+        if obj.name not in self._field_types:
+            self._errors.report('Unknown field name "{}"'.format(obj.name))
+            return
+        if obj.options is not None:
+            self._errors.report('Options are not expected')
         field_types = _AssumeRecord(self._data_types) \
             .visit(self._field_types[obj.name])
         if field_types is not None:
-- 
2.43.0


From b6b56f9003d8d7e57aa671c2c9b91dd8df68c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 09/61] fix: report conflicting names inside complex fields and
 conflicting options

Two different fields under one resulting name were not reported inside
complex fields, nor when their options differ only by type (1 and true): one
of the two values was silently lost.
---
 hiku/validate/query.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 3d31af9..e9c3125 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -218,6 +218,20 @@ class _ValidateOptions(GraphVisitor):
         raise AssertionError('Root node is not expected here')
 
 
+def _field_eq(a, b):
+    return a.name == b.name and a.options_hash == b.options_hash
+
+
+def _check_distinct(query_node, node_name, errors):
+    fields = {}
+    for field in query_node.fields:
+        seen = fields.setdefault(field.result_key, field)
+        if not _field_eq(field, seen):
+            errors.report('Found distinct fields with the same '
+                          'resulting name "{}" for the node "{}"'
+                          .format(field.result_key, node_name))
+
+
 class _RecordFieldsValidator(QueryVisitor):
 
     def __init__(self, data_types, field_types, errors):
@@ -246,6 +260,7 @@ class _RecordFieldsValidator(QueryVisitor):
             fields_validator = _RecordFieldsValidator(self._data_types,
                                                       field_types,
                                                       self._errors)
+            _check_distinct(obj.node, obj.name, self._errors)
             for field in obj.node.fields:
                 fields_validator.visit(field)
         else:
@@ -255,10 +270,6 @@ class _RecordFieldsValidator(QueryVisitor):
         raise AssertionError('Node is not expected here')
 
 
-def _field_eq(a, b):
-    return a.name == b.name and a.options == b.options
-
-
 class QueryValidator(QueryVisitor):
 
     def __init__(self, graph):
@@ -293,6 +304,7 @@ class QueryValidator(QueryVisitor):
                 fields_validator = _RecordFieldsValidator(self.graph.data_types,
                                                           field_types,
                                                           self.errors)
+                _check_distinct(obj.node, obj.name, self.errors)
                 for field in obj.node.fields:
                     fields_validator.visit(field)
             else:
@@ -319,17 +331,8 @@ class QueryValidator(QueryVisitor):
             raise TypeError(repr(graph_obj))
 
     def visit_node(self, obj):
-        fields = {}
+        _check_distinct(obj, self.path[-1].name or 'root', self.errors)
         for field in obj.fields:
-            seen = fields.get(field.result_key)
-            if seen is not None:
-                if not _field_eq(field, seen):
-                    node = self.path[-1].name or 'root'
-                    self.errors.report('Found distinct fields with the same '
-                                       'resulting name "{}" for the node "{}"'
-                                       .format(field.result_key, node))
-            else:
-                fields[field.result_key] = field
             self.visit(field)
 
 
-- 
2.43.0


From 352845c471a6ab8ac0a76cb34d6596e7741221ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 10/61] fix: respect @include when @skip is also present

@skip(if: false) @include(if: false) kept the selection, while it must be
kept only if @skip is not true and @include is not false.
---
 hiku/readers/graphql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index 99732f9..f008592 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -131,7 +131,8 @@ class SelectionSetVisitMixin:
                 raise TypeError('@skip directive does not accept "{}" '
                                 'argument'
                                 .format(skip_arg.name.value))
-            return self.visit(skip_arg.value)
+            if self.visit(skip_arg.value):
+                return True
 
         include = next((d for d in obj.directives if d.name.value == 'include'),
                        None)
-- 
2.43.0


From 90933f9eb19d94133f543c5efcf564e4f783d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 11/61] fix: complex fields in ordered queries

Selecting from a complex field in a mutation raised AttributeError.
---
 hiku/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hiku/engine.py b/hiku/engine.py
index a5a97d0..93147d2 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -127,6 +127,10 @@ class GroupQuery(hiku_query.QueryVisitor):
 
     def visit_link(self, obj):
         graph_obj = self._node.fields_map[obj.name]
+        if isinstance(graph_obj, Field):
+            # `obj` here is a link, but this link is treated as a complex field
+            self.visit_field(obj)
+            return
         if graph_obj.requires:
             self.visit(_required_field(self._node, graph_obj))
         self._groups.append((graph_obj, obj))
-- 
2.43.0


From f17fe3c68ead981c7f2bb250c75afd14b237c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 12/61] fix: raise TypeError when a link to one object returns
 Nothing

An assertion failed before the intended TypeError could be raised, and under
python -O a reference to Nothing was stored.
---
 hiku/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 93147d2..aee2d0d 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -199,7 +199,8 @@ def link_ref_maybe(graph_link, ident):
 
 
 def link_ref_one(graph_link, ident):
-    assert ident is not Nothing
+    if ident is Nothing:
+        raise TypeError('Non-optional link should not return Nothing')
     return Reference(graph_link.node, ident)
 
 
-- 
2.43.0


From ae54759f3325903b620cf537bd9a663c810e611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 13/61] fix: wait for all cancelled tasks in AsyncIOExecutor

gather() returned as soon as the first task was cancelled, while clean-up of
other tasks was still going on, and an error of a clean-up replaced
CancelledError.
---
 hiku/executors/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/executors/asyncio.py b/hiku/executors/asyncio.py
index 6f47295..b1302a5 100644
--- a/hiku/executors/asyncio.py
+++ b/hiku/executors/asyncio.py
@@ -26,5 +26,5 @@ class AsyncIOExecutor:
         except CancelledError:
             for task in queue.__futures__:
                 task.cancel()
-            await gather(*queue.__futures__)
+            await gather(*queue.__futures__, return_exceptions=True)
             raise
-- 
2.43.0


From ad5d2d26ae384b15283abf4a3b5556b8ddf5f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 14/61] fix: keep the order of a field and a link with the same
 name in ordered merge

---
 hiku/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index affb443..9e19308 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -211,8 +211,8 @@ def merge(nodes):
     fields = list(_merge(nodes))
     if ordered:
         # fields and links are computed in the order of their first appearance
-        keys = [_merge_key(f) for n in nodes for f in n.fields]
-        fields.sort(key=lambda f: keys.index(_merge_key(f)))
+        keys = [(f.__class__, _merge_key(f)) for n in nodes for f in n.fields]
+        fields.sort(key=lambda f: keys.index((f.__class__, _merge_key(f))))
     return Node(fields, ordered=ordered)
 
 
-- 
2.43.0


From 2a53499f869a7f320208638ff3cbe71b5a73e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 15/61] fix: read \u escapes in EDN strings

---
 hiku/edn.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ef758b6..b0dfee6 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -1,6 +1,8 @@
 """
 Based on the code from https://github.com/gns24/pydatomic project
 """
+import re
+
 from uuid import UUID
 from decimal import Decimal
 from datetime import datetime
@@ -97,6 +99,14 @@ def coroutine(func):
     return start
 
 
+def _join_surrogates(value):
+    # characters outside of the BMP are escaped as surrogate pairs
+    return _SURROGATES_RE.sub(
+        lambda m: m.group().encode('utf-16', 'surrogatepass').decode('utf-16'),
+        value,
+    )
+
+
 @coroutine
 def appender(lst):
     while True:
@@ -127,6 +137,8 @@ _CHAR_MAP = {
     "v": "\v",
 }
 
+_SURROGATES_RE = re.compile('[\ud800-\udbff][\udc00-\udfff]')
+
 _END_CHARS = {
     '#': '}',
     '{': '}',
@@ -240,10 +252,15 @@ def parser(target, tag_handlers, stop=None):
                     char2 = _CHAR_MAP.get(char)
                     if char2 is not None:
                         chars.append(char2)
+                    elif char == 'u':
+                        code = ''
+                        while len(code) < 4:
+                            code += (yield)
+                        chars.append(chr(int(code, 16)))
                     else:
                         chars.append(char)
                 elif char == '"':
-                    target.send(''.join(chars))
+                    target.send(_join_surrogates(''.join(chars)))
                     break
                 else:
                     chars.append(char)
-- 
2.43.0


From b8d306bbda1d498f332ec302ca563dff2e06de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 16/61] fix: read tagged EDN elements which are followed by a
 closing bracket

---
 hiku/edn.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index b0dfee6..78d95e9 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -157,15 +157,15 @@ def tag_handler(tag_name, tag_handlers):
             break
         tag_name += c
     elements = []
-    handler = parser(appender(elements), tag_handlers)
-    handler.send(c)
+    handler = parser(appender(elements), tag_handlers, single=True)
+    consumed = handler.send(c)
     while not elements:
-        handler.send((yield))
+        consumed = handler.send((yield))
     if tag_name in tag_handlers:
-        yield tag_handlers[tag_name](elements[0]), True
+        value = tag_handlers[tag_name](elements[0])
     else:
-        yield TaggedElement(tag_name, elements[0]), True
-        yield None, True
+        value = TaggedElement(tag_name, elements[0])
+    yield value, consumed is not False
 
 
 @coroutine
@@ -218,7 +218,7 @@ def symbol_handler(s):
 
 
 @coroutine
-def parser(target, tag_handlers, stop=None):
+def parser(target, tag_handlers, stop=None, single=False):
     handler = None
     while True:
         c = (yield)
@@ -236,6 +236,9 @@ def parser(target, tag_handlers, stop=None):
                         target.send(v)
                 if consumed:
                     continue
+                if single:
+                    # last char should be handled by the outer parser
+                    yield False
         if c == stop:
             return
         if c in STOP_CHARS:
-- 
2.43.0


From 12188da5d5d10e0511563d13478182a9b0b45542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 17/61] fix: make TaggedElement hashable

---
 hiku/edn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hiku/edn.py b/hiku/edn.py
index 78d95e9..510d7b3 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -90,6 +90,9 @@ class TaggedElement:
         return isinstance(other, type(self)) and \
             self.name == other.name and self.value == other.value
 
+    def __hash__(self):
+        return hash((self.name, self.value))
+
 
 def coroutine(func):
     def start(*args, **kwargs):
-- 
2.43.0


From 274d97719cf9312fe2f1c43611c2312a6d54cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 18/61] fix: write dates before the year 1000 with four digits

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 510d7b3..d1622de 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -394,7 +394,7 @@ def _iterencode(obj, default, encoder):
     elif isinstance(obj, datetime):
         # FIXME: proper RFC-3339 encoding
         assert not obj.tzinfo
-        yield obj.strftime('#inst "%Y-%m-%dT%H:%M:%S.%fZ"')
+        yield '#inst "{}Z"'.format(obj.isoformat(timespec='microseconds'))
     elif isinstance(obj, UUID):
         yield '#uuid "{}"'.format(obj)
     elif isinstance(obj, TaggedElement):
-- 
2.43.0


From 82f543654c82ee185cb9c5a6cee01a7845d8dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 19/61] fix: end EDN symbols and keywords at every delimiter

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index d1622de..9c328bb 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -205,7 +205,7 @@ def number_handler(s):
 def symbol_handler(s):
     while 1:
         c = (yield)
-        if c in '}])' + STOP_CHARS:
+        if c in '{}[]()";' + STOP_CHARS:
             if s[0] == ':':
                 yield Keyword(s[1:]), False
             elif s == 'true':
-- 
2.43.0


From c8da42b8150f55155c3cc7bccca8bf269ee8242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 20/61] fix: read the EDN symbol "-"

---
 hiku/edn.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 9c328bb..d9ddca8 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -220,6 +220,17 @@ def symbol_handler(s):
             s += c
 
 
+@coroutine
+def sign_handler(s):
+    c = (yield)
+    if c.isdigit():  # .5 should be an error
+        handler = number_handler(s)
+    else:
+        handler = symbol_handler(s)
+    while 1:
+        c = (yield handler.send(c))
+
+
 @coroutine
 def parser(target, tag_handlers, stop=None, single=False):
     handler = None
@@ -275,11 +286,7 @@ def parser(target, tag_handlers, stop=None, single=False):
         elif c in '0123456789':
             handler = number_handler(c)
         elif c in '-.':
-            c2 = (yield)
-            if c2.isdigit():  # .5 should be an error
-                handler = number_handler(c + c2)
-            else:
-                handler = symbol_handler(c + c2)
+            handler = sign_handler(c)
         elif c.isalpha() or c == ':':
             handler = symbol_handler(c)
         elif c in '[({#':
-- 
2.43.0


From f4b08468dd304b485a8f17df6993564d4dfc64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 21/61] fix: read nested EDN option values with the names they
 were exported with

---
 hiku/readers/simple.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/simple.py b/hiku/readers/simple.py
index 81282f5..5ed1864 100644
--- a/hiku/readers/simple.py
+++ b/hiku/readers/simple.py
@@ -9,6 +9,16 @@ from ..edn import loads, Dict, List, Keyword, Tuple
 from ..query import Node, Link, Field, merge
 
 
+def _get_value(value):
+    if isinstance(value, Dict):
+        return {str(k) if isinstance(k, Keyword) else k: _get_value(v)
+                for k, v in value.items()}
+    elif isinstance(value, List):
+        return [_get_value(v) for v in value]
+    else:
+        return value
+
+
 def _get_options(value):
     if len(value) < 2:
         raise TypeError('Missing options argument')
@@ -32,7 +42,7 @@ def _get_options(value):
                         .format(keys_repr))
 
     name = str(keyword_value)
-    options = {str(k): v for k, v in options_value.items()}
+    options = _get_value(options_value)
     return name, options
 
 
-- 
2.43.0


From 54a9717678b2bee8faf7ecb164aaf713688b5129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 22/61] fix: read escaped non-BMP characters in GraphQL strings

---
 hiku/edn.py             | 4 ++--
 hiku/readers/graphql.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index d9ddca8..048a323 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -102,7 +102,7 @@ def coroutine(func):
     return start
 
 
-def _join_surrogates(value):
+def join_surrogates(value):
     # characters outside of the BMP are escaped as surrogate pairs
     return _SURROGATES_RE.sub(
         lambda m: m.group().encode('utf-16', 'surrogatepass').decode('utf-16'),
@@ -277,7 +277,7 @@ def parser(target, tag_handlers, stop=None, single=False):
                     else:
                         chars.append(char)
                 elif char == '"':
-                    target.send(_join_surrogates(''.join(chars)))
+                    target.send(join_surrogates(''.join(chars)))
                     break
                 else:
                     chars.append(char)
diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index f008592..83c02cd 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -3,6 +3,7 @@ import enum
 from graphql.language import ast
 from graphql.language.parser import parse
 
+from ..edn import join_surrogates
 from ..query import Node, Field, Link, merge
 
 
@@ -182,7 +183,7 @@ class SelectionSetVisitMixin:
         return float(obj.value)
 
     def visit_string_value(self, obj):
-        return obj.value
+        return join_surrogates(obj.value)
 
     def visit_boolean_value(self, obj):
         return obj.value
-- 
2.43.0


From 6fbaa93e28c316774e2c047178c8770d03059822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 23/61] fix: report items of a wrong kind in options of fields

Such items in options of links were reported with GraphValidationError, and
in options of fields they caused AttributeError or were accepted.
---
 hiku/validate/graph.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hiku/validate/graph.py b/hiku/validate/graph.py
index 1ed5f2b..f915691 100644
--- a/hiku/validate/graph.py
+++ b/hiku/validate/graph.py
@@ -38,6 +38,7 @@ class GraphValidator(GraphVisitor):
     _name_formatter = _NameFormatter()
     _graph_accept_types = (AbstractNode,)
     _node_accept_types = (AbstractField, AbstractLink)
+    _field_accept_types = (AbstractOption,)
     _link_accept_types = (AbstractOption,)
 
     def __init__(self, items):
@@ -82,6 +83,19 @@ class GraphValidator(GraphVisitor):
         # TODO: check option default value according to the option type
         pass
 
+    def visit_field(self, obj):
+        invalid = [f for f in obj.options
+                   if not isinstance(f, self._field_accept_types)]
+        if invalid:
+            self.errors.report(
+                'Invalid types provided as field "{}" options: {}'
+                .format(self._format_path(obj), self._format_types(invalid))
+            )
+            return
+
+        with self.push_ctx(obj):
+            super(GraphValidator, self).visit_field(obj)
+
     def visit_link(self, obj):
         invalid = [f for f in obj.options
                    if not isinstance(f, self._link_accept_types)]
-- 
2.43.0


From 82fc347d7bb6323747f6a7be7b11bf0aff87da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 24/61] fix: report links which require a link instead of a
 field

Such a graph was accepted, and then the function of the required link was
called as a function of a field.
---
 hiku/validate/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/validate/graph.py b/hiku/validate/graph.py
index f915691..6be0f0f 100644
--- a/hiku/validate/graph.py
+++ b/hiku/validate/graph.py
@@ -117,7 +117,8 @@ class GraphValidator(GraphVisitor):
             )
 
         if obj.requires is not None:
-            if obj.requires not in self.ctx.fields_map:
+            required = self.ctx.fields_map.get(obj.requires)
+            if not isinstance(required, AbstractField):
                 self.errors.report(
                     'Link "{}" requires missing field "{}" in the "{}" node'
                     .format(obj.name, obj.requires, self._format_path())
-- 
2.43.0


From b834e17cd2eaf5a8e35c8f0d51eb71358042df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 25/61] fix: introspection of options without a type

Option.type may be None, and then the introspection query failed.
---
 hiku/introspection/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 30b6b41..b91d452 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -361,7 +361,7 @@ def input_value_type_link(schema, ids):
             node = nodes_map[ident.node]
             field = node.fields_map[ident.field]
             option = field.options_map[ident.name]
-            yield type_ident.visit(option.type)
+            yield type_ident.visit(option.type or Any)
         elif isinstance(ident, InputObjectFieldIdent):
             data_type = schema.data_types[ident.name]
             field_type = data_type.__field_types__[ident.key]
-- 
2.43.0


From 4dcd81a91d59e7bbc3258e88862da46c06b5dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 26/61] fix: refuse names with a trailing newline in
 introspection

They are invalid in GraphQL, but $ in the pattern also matches before a
newline at the end.
---
 hiku/introspection/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index b91d452..f7dff86 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -482,7 +482,7 @@ GRAPH = Graph([
 
 
 class ValidateGraph(GraphVisitor):
-    _name_re = re.compile(r'^[_a-zA-Z]\w*$', re.ASCII)
+    _name_re = re.compile(r'[_a-zA-Z]\w*\Z', re.ASCII)
 
     def __init__(self):
         self._path = []
-- 
2.43.0


From 066bcf0f008956aa166ebe1ca24ab6f357677a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 27/61] fix: write default values with objects in the GraphQL
 syntax

They were written as JSON with quoted names, and client libraries failed to
parse such a schema.
---
 hiku/introspection/graphql.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index f7dff86..4130dcb 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -319,6 +319,18 @@ _arg_descriptions = {
 }
 
 
+def _dump_value(value):
+    # same as JSON, except that names in objects are not quoted
+    if isinstance(value, dict):
+        return '{{{}}}'.format(', '.join(
+            '{}: {}'.format(k, _dump_value(v)) for k, v in value.items()
+        ))
+    elif isinstance(value, (list, tuple)):
+        return '[{}]'.format(', '.join(map(_dump_value, value)))
+    else:
+        return json.dumps(value)
+
+
 @listify
 def input_value_info(schema, fields, ids):
     nodes_map = _nodes_map(schema)
@@ -330,7 +342,7 @@ def input_value_info(schema, fields, ids):
             if option.default is Nothing:
                 default = None
             else:
-                default = json.dumps(option.default)
+                default = _dump_value(option.default)
             info = {'id': ident,
                     'name': option.name,
                     'description': option.description,
-- 
2.43.0


From 68bf7f3df065ca9152d902dafeca9c4298ffe989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 28/61] fix: refuse invalid names of data types in
 introspection

Names of nodes, fields, links and options were checked, but not names of
data types and their fields, and the resulting schema was invalid.
---
 hiku/introspection/graphql.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 4130dcb..0339100 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -513,6 +513,22 @@ class ValidateGraph(GraphVisitor):
                              .format('\n'.join('- {}'.format(err)
                                                for err in self._errors)))
 
+    def visit_graph(self, obj):
+        super(ValidateGraph, self).visit_graph(obj)
+        for name, type_ in obj.data_types.items():
+            if isinstance(type_, RecordMeta):
+                self._visit_data_type(name, type_)
+
+    def _visit_data_type(self, name, type_):
+        if not self._name_re.match(name):
+            self._add_error(name, 'Invalid data type name: {}'.format(name))
+        if not type_.__field_types__:
+            self._add_error(name, 'No fields in the {} data type'.format(name))
+        for field_name in type_.__field_types__:
+            if not self._name_re.match(field_name):
+                self._add_error('{}.{}'.format(name, field_name),
+                                'Invalid field name: {}'.format(field_name))
+
     def visit_node(self, obj):
         if not self._name_re.match(obj.name):
             self._add_error(obj.name,
-- 
2.43.0


From 637b212889b4d4457004b14e8b1d0a82e3d88122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 29/61] fix: find every type of the schema by name with __type

Only nodes and roots were found, and null was returned for scalars and data
types, which are listed in the schema.
---
 hiku/introspection/graphql.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 0339100..5ffbbf5 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -139,16 +139,23 @@ def _nodes_map(schema):
     return OrderedDict(nodes)
 
 
+def _type_name(ident):
+    if isinstance(ident, INPUT_OBJECT):
+        return 'IO{}'.format(ident.name)
+    else:
+        return ident.name
+
+
 def schema_link(schema):
     return None
 
 
 def type_link(schema, options):
     name = options['name']
-    if name in _nodes_map(schema):
-        return OBJECT(name)
-    else:
-        return Nothing
+    for ident in root_schema_types(schema):
+        if name == _type_name(ident):
+            return ident
+    return Nothing
 
 
 @listify
@@ -197,7 +204,7 @@ def type_info(schema, fields, ids):
         elif isinstance(ident, INPUT_OBJECT):
             info = {'id': ident,
                     'kind': 'INPUT_OBJECT',
-                    'name': 'IO{}'.format(ident.name),
+                    'name': _type_name(ident),
                     'description': None}
         elif isinstance(ident, NON_NULL):
             info = {'id': ident,
-- 
2.43.0


From dfc585e39a055fe43c821822fe7107535677a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 30/61] fix: introspection of graphs with several roots

Field __typename was added to every Root item, and the resulting graph was
refused because of duplicated names.
---
 hiku/introspection/graphql.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 5ffbbf5..6999920 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -682,15 +682,12 @@ class GraphQLIntrospection(GraphTransformer):
         node.fields.append(self.__type_name__(obj.name))
         return node
 
-    def visit_root(self, obj):
-        root = super(GraphQLIntrospection, self).visit_root(obj)
-        root.fields.append(self.__type_name__(QUERY_ROOT_NAME))
-        return root
-
     def visit_graph(self, obj):
         ValidateGraph.validate(obj)
         introspection_graph = self.__introspection_graph__()
         items = [self.visit(node) for node in obj.items]
+        # graph may have several roots, they have one name
+        items.append(Root([self.__type_name__(QUERY_ROOT_NAME)]))
         items.extend(introspection_graph.items)
         return Graph(items, data_types=obj.data_types)
 
-- 
2.43.0


From 5d89705cbafbe992d92069ecb1e8500205841e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 31/61] fix: expressions with mappings and nested containers

---
 hiku/expr/refs.py | 42 +++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/hiku/expr/refs.py b/hiku/expr/refs.py
index 50fd0be..5e5e1c1 100644
--- a/hiku/expr/refs.py
+++ b/hiku/expr/refs.py
@@ -1,19 +1,10 @@
 from ..query import Node, Link, Field, merge
-from ..types import GenericMeta, RecordMeta, SequenceMeta, MappingMeta
-from ..types import OptionalMeta, get_type
+from ..types import GenericMeta, RecordMeta, SequenceMeta, OptionalMeta
+from ..types import get_type
 
 from .nodes import NodeVisitor
 
 
-# TODO: revisit this
-_CONTAINER_TYPES = (
-    OptionalMeta,
-    SequenceMeta,
-    MappingMeta,
-    RecordMeta,
-)
-
-
 class Ref:
 
     def __init__(self, backref, to):
@@ -41,14 +32,22 @@ class NamedRef(Ref):
         return '{}:{!r} > {!r}'.format(self.name, self.to, self.backref)
 
 
+def _innermost_type(types, type_):
+    type_ = get_type(types, type_)
+    while isinstance(type_, (OptionalMeta, SequenceMeta)):
+        if isinstance(type_, OptionalMeta):
+            type_ = get_type(types, type_.__type__)
+        else:
+            type_ = get_type(types, type_.__item_type__)
+    return type_
+
+
 def ref_to_req(types, ref, add_req=None):
     if ref is None:
         assert add_req is not None
         return add_req
 
-    ref_type = get_type(types, ref.to)
-    if isinstance(ref_type, OptionalMeta):
-        ref_type = get_type(types, ref_type.__type__)
+    ref_type = _innermost_type(types, ref.to)
 
     if isinstance(ref_type, RecordMeta):
         if isinstance(ref, NamedRef):
@@ -58,22 +57,7 @@ def ref_to_req(types, ref, add_req=None):
         else:
             return ref_to_req(types, ref.backref, add_req)
 
-    elif isinstance(ref_type, SequenceMeta):
-        item_type = get_type(types, ref_type.__item_type__)
-        if isinstance(item_type, RecordMeta):
-            assert isinstance(ref, NamedRef), type(ref)
-            node = Node([]) if add_req is None else add_req
-            return ref_to_req(types, ref.backref,
-                              Node([Link(ref.name, node)]))
-        else:
-            assert not isinstance(item_type, _CONTAINER_TYPES), ref_type
-            assert isinstance(ref, NamedRef), type(ref)
-            assert add_req is None, repr(add_req)
-            return ref_to_req(types, ref.backref,
-                              Node([Field(ref.name)]))
-
     elif isinstance(ref_type, GenericMeta):
-        assert not isinstance(ref_type, _CONTAINER_TYPES), ref_type
         assert add_req is None, repr(add_req)
         if isinstance(ref, NamedRef):
             return ref_to_req(types, ref.backref,
-- 
2.43.0


From da6cbcdcfa7ebf8c2d9dc3d5129a7f0e0047eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 32/61] fix: expressions which do not use "this"

---
 hiku/sources/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index c275674..5f551bc 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -107,7 +107,9 @@ class SubGraph:
         this_graph_link = Link(THIS, Sequence[TypeRef[self.node]], None,
                                requires=None)
 
-        reqs = merge([gf.func.reqs for gf, _ in fields])
+        # objects are always needed to compute expressions for each of them
+        this_reqs = query.Node([query.Link(THIS, query.Node([]))])
+        reqs = merge([this_reqs] + [gf.func.reqs for gf, _ in fields])
         procs = [gf.func.proc for gf, _ in fields]
         option_values = [[qf.options[opt.name] for opt in gf.options]
                          for gf, qf in fields]
-- 
2.43.0


From 525c8e18298461d00b2603225d570f06248cb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 33/61] fix: scope of names bound by if_some and each

---
 hiku/expr/compiler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 070ba1b..336c52f 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -18,7 +18,7 @@ class Environ:
         return '{}_{}'.format(key, i) if i > 1 else key
 
     def __contains__(self, key):
-        return key in self.vars
+        return self.vars[key] > 0
 
     @contextmanager
     def push(self, names):
@@ -104,6 +104,8 @@ class ExpressionCompiler:
     def visit_if_some_expr(self, node):
         _, bind, then_, else_ = node.values
         bind_sym, bind_expr = bind.values
+        col_expr = self.visit(bind_expr)
+        else_expr = self.visit(else_)
         with self.env.push([bind_sym.name]):
             none = py.NameConstant(None)
             load_bind_sym = py.Name(self.env[bind_sym.name], py.Load())
@@ -111,11 +113,11 @@ class ExpressionCompiler:
             store_bind_sym = py.Name(self.env[bind_sym.name], py.Store())
             comp = py.comprehension(
                 store_bind_sym,
-                py.Tuple([self.visit(bind_expr)], py.Load()),
+                py.Tuple([col_expr], py.Load()),
                 [],
                 False,
             )
-            expr = py.IfExp(test, self.visit(then_), self.visit(else_))
+            expr = py.IfExp(test, self.visit(then_), else_expr)
         gen = py.GeneratorExp(expr, [comp])
         return py.Call(py.Name('next', py.Load()), [gen], [])
 
-- 
2.43.0


From 91e8bd9dcbab0b8cd4e016657ba861db96592937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 34/61] fix: names in expressions which collide in the compiled
 code

---
 hiku/expr/compiler.py | 44 +++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 336c52f..e7ea768 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -1,5 +1,5 @@
 from contextlib import contextmanager
-from collections import Counter
+from collections import defaultdict
 
 from ..types import CallableMeta
 from ..compat import ast as py
@@ -9,26 +9,36 @@ from .nodes import Symbol, Keyword
 
 
 class Environ:
+    """Maps names in scope to unique identifiers of the generated code"""
 
-    def __init__(self):
-        self.vars = Counter()
+    def __init__(self, reserved=()):
+        self.vars = defaultdict(list)
+        self.used = set(reserved)
 
     def __getitem__(self, key):
-        i = self.vars[key]
-        return '{}_{}'.format(key, i) if i > 1 else key
+        return self.vars[key][-1]
 
     def __contains__(self, key):
-        return self.vars[key] > 0
+        return bool(self.vars.get(key))
+
+    def _unique(self, name):
+        ident, i = name, 1
+        while ident in self.used:
+            i += 1
+            ident = '{}_{}'.format(name, i)
+        return ident
 
     @contextmanager
     def push(self, names):
         for name in names:
-            self.vars[name] += 1
+            ident = self._unique(name)
+            self.used.add(ident)
+            self.vars[name].append(ident)
         try:
             yield
         finally:
-            for name in names:
-                self.vars[name] -= 1
+            for name in reversed(names):
+                self.used.remove(self.vars[name].pop())
 
 
 class ExpressionCompiler:
@@ -36,7 +46,7 @@ class ExpressionCompiler:
     env_var = 'env'
 
     def __init__(self):
-        self.env = Environ()
+        self.env = Environ([self.env_var, self.ctx_var, 'next'])
 
     @classmethod
     def compile_expr(cls, node):
@@ -45,15 +55,17 @@ class ExpressionCompiler:
     @classmethod
     def compile_lambda_expr(cls, node, args=None):
         args = args or []
+        if THIS in args:
+            raise TypeError('Name "{}" is reserved'.format(THIS))
         compiler = cls()
         with compiler.env.push([THIS] + args):
             body = compiler.visit(node)
-        py_args = [
-            py.arg(cls.env_var, None),
-            py.arg(THIS, None),
-            py.arg(cls.ctx_var, None),
-        ]
-        py_args.extend(py.arg(name, None) for name in args)
+            py_args = [
+                py.arg(cls.env_var, None),
+                py.arg(THIS, None),
+                py.arg(cls.ctx_var, None),
+            ]
+            py_args.extend(py.arg(compiler.env[name], None) for name in args)
         expr = py.Lambda(py.arguments([], py_args, None, [], [], None, []),
                          body)
         py.fix_missing_locations(expr)
-- 
2.43.0


From bf0f64b88a36f5262b3c2b8dd611f567ef574f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 35/61] fix: default options of fields and links required by
 sub-graphs

---
 hiku/engine.py        |  4 ++--
 hiku/sources/graph.py | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index aee2d0d..6416f6e 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -38,9 +38,9 @@ def _required_field(node, graph_link):
 
 class InitOptions(hiku_query.QueryTransformer):
 
-    def __init__(self, graph):
+    def __init__(self, graph, node=None):
         self._graph = graph
-        self._path = [graph.root]
+        self._path = [graph.root if node is None else node]
 
     def visit_field(self, obj):
         graph_obj = self._path[-1].fields_map[obj.name]
diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index 5f551bc..9c655ad 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -5,7 +5,7 @@ from ..graph import Link, Nothing
 from ..types import TypeRef, Sequence
 from ..query import merge
 from ..types import Any
-from ..engine import Query
+from ..engine import Query, InitOptions
 from ..expr.refs import RequirementsExtractor
 from ..expr.core import to_expr, S, THIS
 from ..expr.checker import check, fn_types
@@ -114,9 +114,16 @@ class SubGraph:
         option_values = [[qf.options[opt.name] for opt in gf.options]
                          for gf, qf in fields]
 
+        # required fields and links are used with default options
         this_query_link = reqs.fields_map[THIS]
-        other_reqs = query.Node([r for r in reqs.fields
-                                 if r.name != THIS])
+        this_query_link = this_query_link.copy(
+            node=InitOptions(self.graph, self.graph.nodes_map[self.node])
+            .visit(this_query_link.node)
+        )
+        other_reqs = InitOptions(self.graph).visit(
+            query.Node([r for r in reqs.fields if r.name != THIS])
+        )
+        reqs = query.Node(other_reqs.fields + [this_query_link])
 
         q = Query(queue, task_set, self.graph, reqs, ctx)
         q.process_link(self.graph.root, this_graph_link, this_query_link,
-- 
2.43.0


From 6b7bc19e6ed7a6eeb912113485f03f3304739796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 36/61] fix: syntax errors in queries sent to the GraphQL
 endpoints

---
 hiku/endpoint/graphql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 336af7e..fcb6392 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -1,6 +1,8 @@
 from abc import ABC, abstractmethod
 from asyncio import gather
 
+from graphql.error import GraphQLSyntaxError
+
 from ..graph import apply
 from ..query import QueryTransformer
 from ..validate.query import validate
@@ -35,7 +37,7 @@ def _switch_graph(data, query_graph, mutation_graph=None):
         op = read_operation(data['query'],
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
-    except TypeError as e:
+    except (TypeError, GraphQLSyntaxError) as e:
         raise GraphQLError(errors=[
             'Failed to read query: {}'.format(e),
         ])
-- 
2.43.0


From 9bb0e7a83f1e2760091baa1ff090d2a7596dcd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 37/61] fix: report misused __typename instead of ignoring it

---
 hiku/endpoint/graphql.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index fcb6392..71e1f3f 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -4,7 +4,7 @@ from asyncio import gather
 from graphql.error import GraphQLSyntaxError
 
 from ..graph import apply
-from ..query import QueryTransformer
+from ..query import Field, QueryTransformer
 from ..validate.query import validate
 from ..readers.graphql import read_operation, OperationType
 from ..denormalize.graphql import DenormalizeGraphQL
@@ -25,11 +25,16 @@ class GraphQLError(Exception):
         self.errors = errors
 
 
+def _is_typename(obj):
+    return (obj.name == '__typename' and isinstance(obj, Field)
+            and not obj.options)
+
+
 class _StripQuery(QueryTransformer):
 
     def visit_node(self, obj):
         return obj.copy(fields=[self.visit(f) for f in obj.fields
-                                if f.name != '__typename'])
+                                if not _is_typename(f)])
 
 
 def _switch_graph(data, query_graph, mutation_graph=None):
-- 
2.43.0


From c085245b3bd3bba096b10b9d1b32ba9e79040e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 38/61] fix: __typename under a result key of another field

---
 hiku/endpoint/graphql.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 71e1f3f..9cfc4bb 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -32,9 +32,16 @@ def _is_typename(obj):
 
 class _StripQuery(QueryTransformer):
 
+    def __init__(self):
+        self.errors = []
+
     def visit_node(self, obj):
-        return obj.copy(fields=[self.visit(f) for f in obj.fields
-                                if not _is_typename(f)])
+        fields = [f for f in obj.fields if not _is_typename(f)]
+        keys = {f.result_key for f in obj.fields if _is_typename(f)}
+        for key in sorted(keys.intersection(f.result_key for f in fields)):
+            self.errors.append('Found distinct fields with the same result '
+                               'key "{}"'.format(key))
+        return obj.copy(fields=[self.visit(f) for f in fields])
 
 
 def _switch_graph(data, query_graph, mutation_graph=None):
@@ -58,8 +65,9 @@ def _switch_graph(data, query_graph, mutation_graph=None):
 
 
 def _process_query(graph, query):
-    stripped_query = _StripQuery().visit(query)
-    errors = validate(graph, stripped_query)
+    strip_query = _StripQuery()
+    stripped_query = strip_query.visit(query)
+    errors = strip_query.errors + validate(graph, stripped_query)
     if errors:
         raise GraphQLError(errors=errors)
     else:
-- 
2.43.0


From 6c0b1feb3b52a53d53f719dece6cacbf0c6a59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 39/61] fix: report undefined names and unsupported definitions
 in GraphQL documents

---
 hiku/readers/graphql.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index 83c02cd..be5f808 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -10,10 +10,9 @@ from ..query import Node, Field, Link, merge
 class NodeVisitor:
 
     def visit(self, obj):
-        visit_method = getattr(self, 'visit_{}'.format(obj.kind))
+        visit_method = getattr(self, 'visit_{}'.format(obj.kind), None)
         if visit_method is None:
-            raise NotImplementedError('Not implemented node type: {!r}'
-                                      .format(obj))
+            raise TypeError('Not implemented node type: {!r}'.format(obj))
         return visit_method(obj)
 
     def visit_document(self, obj):
@@ -62,8 +61,8 @@ class OperationGetter(NodeVisitor):
             try:
                 return self._operations[self._operation_name]
             except KeyError:
-                raise ValueError('Undefined operation name: {!r}'
-                                 .format(self._operation_name))
+                raise TypeError('Undefined operation name: {!r}'
+                                .format(self._operation_name))
 
     def visit_fragment_definition(self, obj):
         pass  # skip visit here
@@ -224,6 +223,8 @@ class FragmentsTransformer(SelectionSetVisitMixin, NodeVisitor):
         self.pending_fragments = set()
 
     def transform_fragment(self, name):
+        if name not in self.fragments_map:
+            raise TypeError('Undefined fragment name: {!r}'.format(name))
         return self.visit(self.fragments_map[name])
 
     def visit_operation_definition(self, obj):
-- 
2.43.0


From fa4bdc375e4ebfe10498d9008f285beaec0e5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 40/61] fix: ignore null targets in optional and many links of
 SQL sources

---
 hiku/sources/sqlalchemy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hiku/sources/sqlalchemy.py b/hiku/sources/sqlalchemy.py
index d3c53fa..d33343f 100644
--- a/hiku/sources/sqlalchemy.py
+++ b/hiku/sources/sqlalchemy.py
@@ -84,7 +84,8 @@ class FieldsQuery:
 
 
 def _to_maybe_mapper(pairs, values):
-    mapping = dict(pairs)
+    mapping = {from_value: to_value for from_value, to_value in pairs
+               if to_value is not None}
     return [mapping.get(value, Nothing) for value in values]
 
 
@@ -96,7 +97,8 @@ def _to_one_mapper(pairs, values):
 def _to_many_mapper(pairs, values):
     mapping = defaultdict(list)
     for from_value, to_value in pairs:
-        mapping[from_value].append(to_value)
+        if to_value is not None:
+            mapping[from_value].append(to_value)
     return [mapping[value] for value in values]
 
 
-- 
2.43.0


From 9fa92e2aee9a6731253d05a8f2709b0b02e557c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 41/61] fix: node labels in metrics of functions shared between
 nodes

---
 hiku/telemetry/prometheus.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hiku/telemetry/prometheus.py b/hiku/telemetry/prometheus.py
index 3cc5535..18ba2d6 100644
--- a/hiku/telemetry/prometheus.py
+++ b/hiku/telemetry/prometheus.py
@@ -114,14 +114,16 @@ class GraphMetricsBase(GraphTransformer):
         else:
             func = obj.func
 
-        wrapper = self._wrappers.get(func)
+        # the same function can be used in several nodes
+        key = (node_name, func)
+        wrapper = self._wrappers.get(key)
         if wrapper is None:
             if isinstance(obj.func, CheckedExpr):
-                wrapper = self._wrappers[func] = self._wrap_subquery(
+                wrapper = self._wrappers[key] = self._wrap_subquery(
                     node_name, func,
                 )
             else:
-                wrapper = self._wrappers[func] = self._wrap_field(
+                wrapper = self._wrappers[key] = self._wrap_field(
                     node_name, func,
                 )
 
-- 
2.43.0


From 6c353cc8e064788a7a8fd6c4541ee559e83660c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 42/61] fix: console requests without PATH_INFO

---
 hiku/console/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 145405f..52b6169 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -54,7 +54,7 @@ class ConsoleApplication:
         self._docs_content = dumps_typedef(root)
 
     def __call__(self, environ, start_response):
-        path_info = environ['PATH_INFO'] or '/'
+        path_info = environ.get('PATH_INFO') or '/'
 
         if path_info == self._urls['index_url']:
             if environ['REQUEST_METHOD'] == 'GET':
-- 
2.43.0


From f1b3476af2f31861084bf329e816e6952e4ba04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 43/61] fix: console requests with malformed Content-Length

---
 hiku/console/ui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 52b6169..f853ebf 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -107,7 +107,10 @@ class ConsoleApplication:
         return [content]
 
     def _index_post(self, environ, start_response):
-        limit = max(0, int(environ.get('CONTENT_LENGTH') or 0))
+        try:
+            limit = max(0, int(environ.get('CONTENT_LENGTH') or 0))
+        except ValueError:
+            return self._error(400, start_response, 'Invalid Content-Length')
         if limit > 2 ** 20:  # 1MB
             return self._error(400, start_response, 'Payload is too big')
 
-- 
2.43.0


From 9aab034cfaf1b7a5fd54f8667868d0cab1866ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 44/61] fix: console answers to queries with results which are
 not JSON

---
 hiku/console/ui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index f853ebf..0efdd39 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -127,11 +127,11 @@ class ConsoleApplication:
                 result = self.engine.execute(self.root, query, ctx=self.ctx)
                 result = denormalize(self.root, result)
                 status = '200 OK'
+            result_data = _encode(json.dumps(result))
         except Exception:
             tb = traceback.format_exc() if self.debug else None
-            result = {'traceback': tb}
+            result_data = _encode(json.dumps({'traceback': tb}))
             status = '500 Internal Server Error'
-        result_data = _encode(json.dumps(result))
         start_response(status, [
             ('Content-Type', 'application/json'),
             ('Content-Length', str(len(result_data))),
-- 
2.43.0


From 4dd150753e5b1654b4ddbfa6b01b78d510cd6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 45/61] fix: Content-Type of console docs

---
 hiku/console/ui.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 0efdd39..85a6013 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -141,6 +141,7 @@ class ConsoleApplication:
     def _docs_get(self, environ, start_response):
         content = _encode(self._docs_content)
         start_response('200 OK', [
+            ('Content-Type', 'text/plain; charset=UTF-8'),
             ('Content-Length', str(len(content))),
         ])
         return [content]
-- 
2.43.0


From 5c18a5a23799f3c3b16c08766624c6a1ab4195af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 46/61] fix: line breaks in descriptions in type definition
 dumps

---
 hiku/typedef/kinko.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/typedef/kinko.py b/hiku/typedef/kinko.py
index 02c3c6e..62d6ba0 100644
--- a/hiku/typedef/kinko.py
+++ b/hiku/typedef/kinko.py
@@ -112,7 +112,9 @@ class _IndentedPrinter:
     def _iter_lines(self):
         for i, line in enumerate(self._buffer):
             if i in self._descriptions:
-                yield line + '  ; {}'.format(self._descriptions[i])
+                # a comment ends with the line
+                description = ' '.join(self._descriptions[i].split())
+                yield line + '  ; {}'.format(description)
             else:
                 yield line
 
-- 
2.43.0


From 40dc1b3b7d34384b858e584efdf7929241ad9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 47/61] fix: maps with container keys in type definition dumps

---
 hiku/typedef/kinko.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hiku/typedef/kinko.py b/hiku/typedef/kinko.py
index 62d6ba0..5bd3a0e 100644
--- a/hiku/typedef/kinko.py
+++ b/hiku/typedef/kinko.py
@@ -148,7 +148,15 @@ class _IndentedPrinter:
     def visit_mapping(self, type_):
         self._print_call('Dict')
         self._print_arg(type_.__key_type__)
-        self._print_arg(type_.__value_type__)
+        if (
+            isinstance(type_.__key_type__, _CONTAINER_TYPES)
+            and not isinstance(type_.__value_type__, _CONTAINER_TYPES)
+        ):
+            # the last line belongs to the key
+            with self._add_indent():
+                self._print_call(_LinePrinter().visit(type_.__value_type__))
+        else:
+            self._print_arg(type_.__value_type__)
 
     def visit_optional(self, type_):
         self._print_call('Option')
-- 
2.43.0


From b318a493e5ac4a64f3b1c81f1286d8e51a3010a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:33 +0000
Subject: [PATCH 48/61] fix: comparing types for inequality raised TypeError

---
 hiku/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/types.py b/hiku/types.py
index 47c63b0..1c56111 100644
--- a/hiku/types.py
+++ b/hiku/types.py
@@ -12,7 +12,8 @@ class GenericMeta(type):
                 and cls.__dict__ == other.__dict__)
 
     def __ne__(cls, other):
-        return not cls.__eq__(other)
+        # `cls.__eq__` is a method for instances of the class
+        return not cls == other
 
     def accept(cls, visitor):
         raise NotImplementedError(type(cls))
-- 
2.43.0


From f503cd8cfd8065caef8f669f1e9247bcb948c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:35 +0000
Subject: [PATCH 49/61] fix: custom encoder was not used for values of tagged
 elements in EDN

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 048a323..359bb58 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -406,7 +406,7 @@ def _iterencode(obj, default, encoder):
         yield '#uuid "{}"'.format(obj)
     elif isinstance(obj, TaggedElement):
         yield '#{} '.format(obj.name)
-        for chunk in _iterencode(obj.value, _default, encoder):
+        for chunk in _iterencode(obj.value, default, encoder):
             yield chunk
     else:
         obj = default(obj)
-- 
2.43.0


From 29a333570929d01d52e95d7f6c1bd9702d454e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:55 +0000
Subject: [PATCH 50/61] fix: fields with the name "obj" in expressions

---
 hiku/expr/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hiku/expr/core.py b/hiku/expr/core.py
index 3093ce0..a93def1 100644
--- a/hiku/expr/core.py
+++ b/hiku/expr/core.py
@@ -25,13 +25,14 @@ _Func = namedtuple('__func__', 'expr, args')
 class _DotHandler:
 
     def __init__(self, obj):
-        self.obj = obj
+        # other names are names of fields
+        self.__obj__ = obj
 
     def __repr__(self):
-        return repr(self.obj)
+        return repr(self.__obj__)
 
     def __getattr__(self, name):
-        return _DotHandler(Tuple([Symbol('get'), self.obj, Symbol(name)]))
+        return _DotHandler(Tuple([Symbol('get'), self.__obj__, Symbol(name)]))
 
 
 class _S:
@@ -47,7 +48,7 @@ S = _S()
 
 def _to_expr(obj, fn_reg):
     if isinstance(obj, _DotHandler):
-        return obj.obj
+        return obj.__obj__
     elif isinstance(obj, _Func):
         fn_reg.add(obj.expr)
         return Tuple([Symbol(obj.expr.__def_name__)] +
-- 
2.43.0


From 377e032f634e1d82f5c8c927bf91467fdb29d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 51/61] fix: options and variables in expressions with names of
 Python's constants

---
 hiku/expr/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index e7ea768..d8dfe7c 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -46,7 +46,9 @@ class ExpressionCompiler:
     env_var = 'env'
 
     def __init__(self):
-        self.env = Environ([self.env_var, self.ctx_var, 'next'])
+        self.env = Environ([self.env_var, self.ctx_var, 'next',
+                            # can't be assigned in Python
+                            'None', 'True', 'False', '__debug__'])
 
     @classmethod
     def compile_expr(cls, node):
-- 
2.43.0


From c07b30587ac0482e7a987001ca746684ec69c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 52/61] fix: options and fields with the name "if" in
 expressions

---
 hiku/expr/checker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hiku/expr/checker.py b/hiku/expr/checker.py
index fef4b8a..e6cb87a 100644
--- a/hiku/expr/checker.py
+++ b/hiku/expr/checker.py
@@ -93,6 +93,11 @@ class Checker(NodeTransformer):
         tup.__ref__ = NamedRef(obj.__ref__, name.name, res)
         return tup
 
+    def visit_if_expr(self, node):
+        args = [self.visit(val) for val in node.values[1:]]
+        assert len(args) == 3, 'Wrong arguments count at "if" function'
+        return Tuple([Symbol('if')] + args)
+
     def visit_each_expr(self, node):
         var, col, expr = node.values[1:]
         assert isinstance(var, Symbol), repr(var)
@@ -146,6 +151,8 @@ class Checker(NodeTransformer):
         sym = node.values[0]
         if sym.name == 'get':
             return self.visit_get_expr(node)
+        elif sym.name == 'if':
+            return self.visit_if_expr(node)
         elif sym.name == 'each':
             return self.visit_each_expr(node)
         elif sym.name == 'if_some':
-- 
2.43.0


From 29375e824e638f53d91c81d724199bfc8bb21ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:43 +0000
Subject: [PATCH 53/61] fix: fields with named types that are not records

Validation accepts selections in fields whose type is the name of an optional,
sequence or another named type, but Denormalize did not find the record, and
result.denormalize failed on names of names.
---
 hiku/denormalize/base.py    | 10 +++++++++-
 hiku/denormalize/graphql.py |  6 +++---
 hiku/types.py               |  3 ++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index dfb2462..20cd989 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -21,6 +21,14 @@ class Denormalize(QueryVisitor):
         self.visit(query)
         return self._res.pop()
 
+    def _resolve(self, type_):
+        # data types, which are not records, stand for their definitions
+        if isinstance(type_, TypeRefMeta):
+            data_type = self._types[type_.__type_name__]
+            if not isinstance(data_type, RecordMeta):
+                return self._resolve(data_type)
+        return type_
+
     def _get_value(self, obj):
         data = self._data[-1]
         # values of complex fields are stored as is, without aliases
@@ -31,7 +39,7 @@ class Denormalize(QueryVisitor):
         self._res[-1][obj.result_key] = self._get_value(obj)
 
     def visit_link(self, obj: Link):
-        type_ = self._type[-1].__field_types__[obj.name]
+        type_ = self._resolve(self._type[-1].__field_types__[obj.name])
         if isinstance(type_, (TypeRefMeta, RecordMeta)):
             self._type.append(get_type(self._types, type_))
             self._res.append({})
diff --git a/hiku/denormalize/graphql.py b/hiku/denormalize/graphql.py
index d33c1b9..1abc990 100644
--- a/hiku/denormalize/graphql.py
+++ b/hiku/denormalize/graphql.py
@@ -19,13 +19,13 @@ class DenormalizeGraphQL(Denormalize):
             super().visit_field(obj)
 
     def visit_link(self, obj: Link):
-        type_ = self._type[-1].__field_types__[obj.name]
+        type_ = self._resolve(self._type[-1].__field_types__[obj.name])
         if isinstance(type_, (TypeRefMeta, RecordMeta)):
             type_ref = type_
         elif isinstance(type_, SequenceMeta):
-            type_ref = type_.__item_type__
+            type_ref = self._resolve(type_.__item_type__)
         elif isinstance(type_, OptionalMeta):
-            type_ref = type_.__type__
+            type_ref = self._resolve(type_.__type__)
         else:
             raise AssertionError(repr(type_))
         # records which are defined in place have no name
diff --git a/hiku/types.py b/hiku/types.py
index 1c56111..97e0e33 100644
--- a/hiku/types.py
+++ b/hiku/types.py
@@ -294,6 +294,7 @@ class TypeVisitor(AbstractTypeVisitor):
 
 def get_type(types, t):
     if isinstance(t, TypeRefMeta):
-        return types[t.__type_name__]
+        # a data type can be a reference to another data type
+        return get_type(types, types[t.__type_name__])
     else:
         return t
-- 
2.43.0


From 70f1ef2a2c61854cf9f9dde4991339ad0be63801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:43 +0000
Subject: [PATCH 54/61] fix: introspection of named types that are not records

Such types are not listed in the schema, but fields and options referred to
them as objects.
---
 hiku/introspection/graphql.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 6999920..676a05b 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -73,6 +73,11 @@ class TypeIdent(AbstractTypeVisitor):
         return ident.of_type if isinstance(ident, NON_NULL) else ident
 
     def visit_typeref(self, obj):
+        data_type = self._graph.data_types.get(obj.__type_name__)
+        if data_type is not None and not isinstance(data_type, RecordMeta):
+            # only records are listed in the schema, other data types stand
+            # for their definitions
+            return self.visit(data_type)
         if self._input_mode:
             assert obj.__type_name__ in self._graph.data_types, \
                 obj.__type_name__
-- 
2.43.0


From 842833c8de35622b92788baec8ca9f169a1ba39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 55/61] fix: the console answered with numbers which are not
 JSON

---
 hiku/console/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 85a6013..ca6ec32 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -127,7 +127,7 @@ class ConsoleApplication:
                 result = self.engine.execute(self.root, query, ctx=self.ctx)
                 result = denormalize(self.root, result)
                 status = '200 OK'
-            result_data = _encode(json.dumps(result))
+            result_data = _encode(json.dumps(result, allow_nan=False))
         except Exception:
             tb = traceback.format_exc() if self.debug else None
             result_data = _encode(json.dumps({'traceback': tb}))
-- 
2.43.0


From e92838cd08b02e0990a6f68544238d5af0fd9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 56/61] fix: map keys of options which cannot be keywords in
 EDN export

---
 hiku/export/simple.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hiku/export/simple.py b/hiku/export/simple.py
index b877302..acb61ce 100644
--- a/hiku/export/simple.py
+++ b/hiku/export/simple.py
@@ -1,7 +1,20 @@
+import re
+
 from ..edn import Keyword, Dict, Tuple, List, Set
 from ..query import QueryVisitor
 
 
+# other strings can't be read back as keywords
+_KEYWORD_RE = re.compile(r'[^{}\[\]()"; ,\n\r\t]*')
+
+
+def _encode_key(key):
+    if isinstance(key, str) and _KEYWORD_RE.fullmatch(key):
+        return Keyword(key)
+    else:
+        return _encode(key)
+
+
 def _encode(value):
     if value is None:
         return value
@@ -10,7 +23,8 @@ def _encode(value):
     elif isinstance(value, list):
         return List(_encode(val) for val in value)
     elif isinstance(value, dict):
-        return Dict((Keyword(key), _encode(val)) for key, val in value.items())
+        return Dict((_encode_key(key), _encode(val))
+                    for key, val in value.items())
     elif isinstance(value, (set, frozenset)):
         return Set(_encode(val) for val in value)
     else:
-- 
2.43.0


From f40a0dbd26ef58421b73bd4e199125490c387d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 57/61] fix: numbers which a double cannot hold were changed by
 protobuf export

---
 hiku/export/protobuf.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/hiku/export/protobuf.py b/hiku/export/protobuf.py
index a59ed79..7ba4a6b 100644
--- a/hiku/export/protobuf.py
+++ b/hiku/export/protobuf.py
@@ -1,9 +1,32 @@
+from math import isfinite
+
 from google.protobuf.json_format import ParseDict
 
 from ..query import QueryVisitor
 from ..protobuf import query_pb2
 
 
+def _check_numbers(value):
+    # all numbers are stored as double
+    if isinstance(value, float):
+        if not isfinite(value):
+            raise ValueError('Unsupported value: {!r}'.format(value))
+    elif isinstance(value, int):
+        if int(float(value)) != value:
+            raise ValueError('Unsupported value: {!r}'.format(value))
+    elif isinstance(value, dict):
+        for val in value.values():
+            _check_numbers(val)
+    elif isinstance(value, (list, tuple)):
+        for val in value:
+            _check_numbers(val)
+
+
+def _set_options(options, value):
+    _check_numbers(value)
+    ParseDict(value, options)
+
+
 class Exporter(QueryVisitor):
 
     def __init__(self, node):
@@ -13,13 +36,13 @@ class Exporter(QueryVisitor):
         field = self.stack[-1].items.add().field
         field.name = obj.name
         if obj.options is not None:
-            ParseDict(obj.options, field.options)
+            _set_options(field.options, obj.options)
 
     def visit_link(self, obj):
         link = self.stack[-1].items.add().link
         link.name = obj.name
         if obj.options is not None:
-            ParseDict(obj.options, link.options)
+            _set_options(link.options, obj.options)
         self.stack.append(link.node)
         try:
             self.visit(obj.node)
-- 
2.43.0


From df2bf52570b52c914a916d70915845e43568669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 58/61] fix: symbols and numbers with a leading sign character
 in EDN

---
 hiku/edn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 359bb58..2aaf391 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -285,9 +285,9 @@ def parser(target, tag_handlers, stop=None, single=False):
             handler = character_handler()
         elif c in '0123456789':
             handler = number_handler(c)
-        elif c in '-.':
+        elif c in '+-.':
             handler = sign_handler(c)
-        elif c.isalpha() or c == ':':
+        elif c.isalpha() or c in ':*!_?$%&=<>/':
             handler = symbol_handler(c)
         elif c in '[({#':
             if c == '#':
-- 
2.43.0


From 5ac2ecfb43822db4c67bafe177044756255ff84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 59/61] fix: floats which are not finite were written as EDN
 symbols

---
 hiku/edn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 2aaf391..0c49694 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -3,6 +3,7 @@ Based on the code from https://github.com/gns24/pydatomic project
 """
 import re
 
+from math import isfinite
 from uuid import UUID
 from decimal import Decimal
 from datetime import datetime
@@ -364,7 +365,7 @@ def _iterencode(obj, default, encoder):
         yield 'false'
     elif isinstance(obj, int):
         yield str(int(obj))
-    elif isinstance(obj, float):
+    elif isinstance(obj, float) and isfinite(obj):
         # FIXME: proper float encoding
         yield str(float(obj))
     elif isinstance(obj, Decimal):
-- 
2.43.0


From c4c0b5682aadf97760ed3ef80dfffaf8ed33dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 60/61] fix: values which GraphQL documents cannot hold were
 exported

---
 hiku/export/graphql.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hiku/export/graphql.py b/hiku/export/graphql.py
index f91383c..0c226f0 100644
--- a/hiku/export/graphql.py
+++ b/hiku/export/graphql.py
@@ -1,3 +1,7 @@
+import re
+
+from math import isfinite
+
 from graphql.language import ast
 
 from ..query import QueryVisitor, Field
@@ -7,6 +11,15 @@ def _name(value):
     return ast.NameNode(value=value) if value is not None else None
 
 
+_NAME_RE = re.compile(r'[_A-Za-z][_0-9A-Za-z]*', re.ASCII)
+
+
+def _key(value):
+    if not isinstance(value, str) or not _NAME_RE.fullmatch(value):
+        raise TypeError('Unsupported key: {!r}'.format(value))
+    return _name(value)
+
+
 def _encode(value):
     if value is None:
         return ast.NullValueNode()
@@ -14,7 +27,7 @@ def _encode(value):
         return ast.BooleanValueNode(value=value)
     elif isinstance(value, int):
         return ast.IntValueNode(value=str(value))
-    elif isinstance(value, float):
+    elif isinstance(value, float) and isfinite(value):
         return ast.FloatValueNode(value=str(value))
     elif isinstance(value, str):
         return ast.StringValueNode(value=value)
@@ -22,7 +35,7 @@ def _encode(value):
         return ast.ListValueNode(values=[_encode(v) for v in value])
     elif isinstance(value, dict):
         return ast.ObjectValueNode(fields=[
-            ast.ObjectFieldNode(name=_name(key), value=_encode(val))
+            ast.ObjectFieldNode(name=_key(key), value=_encode(val))
             for key, val in value.items()
         ])
     else:
-- 
2.43.0


From 8e025f6ce60f1ca283f62d8fd0b94ac96317cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:59 +0000
Subject: [PATCH 61/61] fix: __typename asked under several keys of a node

---
 hiku/introspection/graphql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 676a05b..d507201 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -620,7 +620,9 @@ class MakeAsync(GraphTransformer):
 
 
 def type_name_field_func(node_name, fields, ids=None):
-    return [[node_name] for _ in ids] if ids is not None else [node_name]
+    # there is one field for each key
+    names = [node_name for _ in fields]
+    return [names for _ in ids] if ids is not None else names
 
 
 class AddIntrospection(GraphTransformer):
-- 
2.43.0

