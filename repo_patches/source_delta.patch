From a87238a84f002e950283647e6d233d8c73b78259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 01/37] fix: offer every coercer the original argument

A coercer whose output failed the type check leaked that output into the
next coercer as its input.
---
 records/fillers/filler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index b58e816..c9051c4 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -191,15 +191,16 @@ class AnnotatedFiller(Filler, Generic[T]):
                     raise TypeError(f'failed type checking for value of type {type(arg)}')
                 for i, coercer in enumerate(self.coercers):
                     try:
-                        arg = coercer(arg)
-                        tc = self.type_check(arg)
+                        coerced = coercer(arg)
+                        tc = self.type_check(coerced)
                         if tc is None \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
-                            raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
+                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
                         if i == len(self.coercers) - 1:
                             raise
                     else:
+                        arg = coerced
                         break
                 tpk = TypePassKind.coerce
 
-- 
2.43.0


From 7affce4fe6d68aa5807b27a70a0e7484e00c4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 02/37] fix: reject wrongly typed coercer output for None,
 Ellipsis, callable and Literal

The type checks of these fillers report a mismatch as False rather than None.
---
 records/fillers/filler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index c9051c4..d5172d7 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -193,7 +193,7 @@ class AnnotatedFiller(Filler, Generic[T]):
                     try:
                         coerced = coercer(arg)
                         tc = self.type_check(coerced)
-                        if tc is None \
+                        if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                             raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
-- 
2.43.0


From 0f0a6812a7be17680847688f69a7cc96851be665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 03/37] fix: keep the keys of a Select built from one-shot
 iterables

The truth test consumed the first key, and the first application the rest.
---
 records/select.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/records/select.py b/records/select.py
index 4b3678d..adeae97 100644
--- a/records/select.py
+++ b/records/select.py
@@ -44,12 +44,13 @@ class Select:
             keys_to_remove = (keys_to_remove,)
         if isinstance(keys_to_maybe_remove, str):
             keys_to_maybe_remove = (keys_to_maybe_remove,)
-        self.keys_to_add = keys_to_add
-        self.keys_to_maybe_add = keys_to_maybe_add
-        self.keys_to_remove = keys_to_remove
-        self.keys_to_maybe_remove = keys_to_maybe_remove
-        self.keys_to_rename = keys_to_rename
-        self.keys_to_maybe_rename = keys_to_maybe_rename
+        # the arguments may be one-shot iterables, and a Select may be evaluated any number of times
+        self.keys_to_add = tuple(keys_to_add)
+        self.keys_to_maybe_add = tuple(keys_to_maybe_add)
+        self.keys_to_remove = tuple(keys_to_remove)
+        self.keys_to_maybe_remove = tuple(keys_to_maybe_remove)
+        self.keys_to_rename = tuple(keys_to_rename)
+        self.keys_to_maybe_rename = tuple(keys_to_maybe_rename)
 
         # the Select's truthiness is cached
         self._bool = None
-- 
2.43.0


From 5ec0e90f4fbdc97eb2633449a3ba1e5304850032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 04/37] fix: fall back on the parsing result even if it is
 falsish

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 75703a0..4868b20 100644
--- a/records/record.py
+++ b/records/record.py
@@ -240,7 +240,7 @@ class RecordBase:
             self = self.post_new() or self
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing:
+            if parsing is not None:
                 return parsing
             raise
 
-- 
2.43.0


From 3ff1ed0303acd04b1d131d1504769e5985d7e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 05/37] fix: keep the fields of inheriting classes a FieldDict

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 4868b20..a4e9116 100644
--- a/records/record.py
+++ b/records/record.py
@@ -122,7 +122,7 @@ class RecordBase:
                     raise ValueError(f'cannot override inherited field {k}')
                 parent_fields[k] = field
         if parent_fields:
-            cls._fields = {**parent_fields, **cls._fields}
+            cls._fields = FieldDict({**parent_fields, **cls._fields})
 
         if any(b for b in cls.__bases__ if b.__init__ not in (RecordBase.__init__, object.__init__)):
             warn(f'class {cls} has parents that implement __init__, the initializer will not be called!')
-- 
2.43.0


From 15d84abfdd664af49ace7f303633d825a4b3e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 06/37] fix: forbid deleting attributes of frozen records

---
 records/record.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/records/record.py b/records/record.py
index a4e9116..c6a8fc7 100644
--- a/records/record.py
+++ b/records/record.py
@@ -425,6 +425,11 @@ class RecordBase:
             return super().__setattr__(a, value)
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
+    def __delattr__(self, a):
+        if self.is_frozen():
+            raise TypeError(f'{type(self).__qualname__} is frozen')
+        return super().__delattr__(a)
+
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
-- 
2.43.0


From 3543c04cb3545ecff8c56e8db58d6103d629654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 07/37] fix: do not pickle the cached hash of frozen records

Hashes differ between processes, so an unpickled record was unequal to its
equals.
---
 records/record.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/records/record.py b/records/record.py
index c6a8fc7..8deeaf0 100644
--- a/records/record.py
+++ b/records/record.py
@@ -433,6 +433,14 @@ class RecordBase:
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
+    def __reduce_ex__(self, protocol):
+        reduced = super().__reduce_ex__(protocol)
+        state = reduced[2] if isinstance(reduced, tuple) and len(reduced) > 2 else None
+        if isinstance(state, tuple) and len(state) == 2 and isinstance(state[1], dict):
+            # the cached hash may be meaningless in the process that loads the record
+            state[1].pop('_hash', None)
+        return reduced
+
     @parser
     @SelectableFactory
     @classmethod
-- 
2.43.0


From 1ed636cd88cbcf1fbc48a3a626775c99e7ba6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 08/37] fix: deepcopy records into the memo given, even if it
 is still empty

Objects shared between records were copied once per record.
---
 records/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 8deeaf0..a03661f 100644
--- a/records/record.py
+++ b/records/record.py
@@ -660,7 +660,8 @@ class RecordBase:
         return type(self).from_instance(self)
 
     def __deepcopy__(self, memo=None):
-        memo = memo or {}
+        if memo is None:
+            memo = {}
         d = self.to_dict()
         d = deepcopy(d, memo)
         return self.from_mapping(d)
-- 
2.43.0


From 7ff2de02df45aeff18d68dccc78ffdf981da5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 09/37] fix: copy the values of fields that compare equal to
 their default

Such values were replaced by the default, which may be a distinct object.
---
 records/record.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index a03661f..4ccf31f 100644
--- a/records/record.py
+++ b/records/record.py
@@ -657,12 +657,12 @@ class RecordBase:
     def __copy__(self):
         if self.is_frozen():
             return self
-        return type(self).from_instance(self)
+        return type(self).from_mapping(self.to_dict(include_defaults=True))
 
     def __deepcopy__(self, memo=None):
         if memo is None:
             memo = {}
-        d = self.to_dict()
+        d = self.to_dict(include_defaults=True)
         d = deepcopy(d, memo)
         return self.from_mapping(d)
 
-- 
2.43.0


From 212f4be7a5e97cda7677617a8c8a7114fc683846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 10/37] fix: compare frozen records that have unhashable values

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 4ccf31f..ec27b95 100644
--- a/records/record.py
+++ b/records/record.py
@@ -281,7 +281,7 @@ class RecordBase:
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        if type(self).is_frozen() and hash(self) != hash(other):
+        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
             return False
         for name in self._fields:
             if getattr(self, name) != getattr(other, name):
-- 
2.43.0


From 10ca43833f73c4fc3709333d3ef1bc1596eca77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 11/37] fix: let keys_to_maybe_add stand in for a missing
 attribute in from_instance

---
 records/record.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/record.py b/records/record.py
index ec27b95..587b3b1 100644
--- a/records/record.py
+++ b/records/record.py
@@ -359,6 +359,8 @@ class RecordBase:
                 missing_ok.add(new)
                 missing_ok.add(old)
                 extraction_dict[old] = cls._MockField(name=old)
+            for key, _ in _rev_select.keys_to_maybe_add:
+                missing_ok.add(key)
             for key, _ in _rev_select.keys_to_add:
                 extraction_dict.pop(key, _)
         fields_to_extract = extraction_dict.values()
-- 
2.43.0


From 5c76c4063d3a117326586bd07b33bb805b689f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 12/37] fix: apply the annotations around a Final hint

Type checks, coercers and validators of Annotated[Final[T], ...] were
silently dropped.
---
 records/field.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/records/field.py b/records/field.py
index 31bd34c..6769f0d 100644
--- a/records/field.py
+++ b/records/field.py
@@ -7,7 +7,7 @@ from records.fillers.filler import Filler
 from records.fillers.get_filler import get_filler
 from records.tags import Tag
 from records.utils.decorators import decorator_kw_method
-from records.utils.typing_compatible import get_args, get_origin, split_annotation
+from records.utils.typing_compatible import Annotated, get_args, get_origin, split_annotation
 
 try:
     from typing import Final
@@ -117,10 +117,10 @@ class RecordField:
         if meta_org is Final:
             if not owner.is_frozen():
                 raise TypeError('cannot declare Final field in non-frozen Record')
-            ret = cls.from_type_hint(get_args(origin)[0], owner=owner, **kwargs)
-        else:
-            filler = get_filler(th)
-            ret = cls(filler=filler, owner=owner, **kwargs)
+            inner = get_args(origin)[0]
+            return cls.from_type_hint(Annotated[(inner, *args)] if args else inner, owner=owner, **kwargs)
+        filler = get_filler(th)
+        ret = cls(filler=filler, owner=owner, **kwargs)
         for arg in args:
             ret._apply(arg)
         return ret
-- 
2.43.0


From d8cae4eeeb8ab504844f6ec4810a8fad759966cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 13/37] fix: tell wrapped coercer factories from other wrapped
 annotations

Any annotation with a __wrapped__ attribute was called and used as a coercer.
---
 records/fillers/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/util.py b/records/fillers/util.py
index edf8f1a..6863d3d 100644
--- a/records/fillers/util.py
+++ b/records/fillers/util.py
@@ -15,6 +15,6 @@ def _as_instance(obj, cls: Type[T]) -> Optional[T]:
     elif isinstance(obj, type) and issubclass(obj, cls):
         return obj()
     wrapped = getattr(obj, '__wrapped__', None)
-    if wrapped is not None:
+    if isinstance(wrapped, type) and issubclass(wrapped, cls):
         return obj()
     return None
-- 
2.43.0


From 951e2d3793ded3f89c0bcc7e24e5ee1ee2b0238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 14/37] fix: reconstruct strings from their filled characters

A string was replaced by the representation of an iterator.
---
 records/fillers/builtin_fillers/typing_fillers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a745b51..6b37507 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -264,6 +264,9 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
+        if isinstance(initial, str):
+            # the constructor of strings does not take their elements
+            elements = ''.join(elements)
         return type(initial)(elements)
 
     def bind(self, owner_cls):
-- 
2.43.0


From 8357f1eb760b3b10ad2e82455f4548d366f8a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 15/37] fix: keep rounded values of Cyclic under its exclusive
 maximum

---
 records/fillers/builtin_validators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index d3652ca..c036580 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -88,7 +88,9 @@ class Cyclic(GlobalValidationToken):
             return v
         d = v - self.minimum
         d %= (self.maximum - self.minimum)
-        return self.minimum + d
+        ret = self.minimum + d
+        # rounding may bring a value just under the minimum up to the (exclusive) maximum
+        return ret if ret < self.maximum else self.minimum
 
     def __call__(self, *_):
         return self.inner
-- 
2.43.0


From 4399cf558b3d988b30e3f54f5c7b1b27971af40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 16/37] fix: convert nearly whole numbers to the nearest
 integer in Whole

2.9999999999 was converted to 2.
---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index c90ce6a..ad6eb65 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -265,7 +265,7 @@ class Whole(OriginDependant):
         elif isinstance(v, Real):
             mod = v % 1
             if isclose(mod, 0) or isclose(mod, 1):
-                return origin(v, *self.args, **self.kwargs)
+                return origin(round(v), *self.args, **self.kwargs)
         elif isinstance(v, Complex):
             if v.imag == 0:
                 return self.func_args(origin, v.real)
-- 
2.43.0


From 59a1388315d102130abcc7922be30e988250e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 17/37] fix: accept more than one mapping in from_instance

---
 records/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 587b3b1..8821581 100644
--- a/records/record.py
+++ b/records/record.py
@@ -488,7 +488,9 @@ class RecordBase:
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(*maps, **kwargs)
+        for m in maps:
+            d.update(m)
+        d.update(kwargs)
         return d
 
     @parser
-- 
2.43.0


From fe1c73edc1d9b848d8b3284f3bf5bc0bce2f46e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 18/37] fix: accept only the empty tuple for Tuple[()]

---
 records/fillers/builtin_fillers/typing_fillers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 6b37507..635bca5 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -5,7 +5,7 @@ import contextlib
 from collections import defaultdict, deque
 from collections.abc import Callable as CallableBase
 from itertools import chain, islice
-from typing import Any, Sequence, TypeVar, Union
+from typing import Any, Sequence, Tuple, TypeVar, Union
 
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.filler import (AnnotatedFiller, Filler, TypeMatch, FillingSuccess, TypePassKind)
@@ -164,6 +164,9 @@ class TupleFiller(WrapperFiller):
     def __init__(self, origin, args):
         super().__init__(get_origin(origin), args)
         self.inner_args = get_args(origin)
+        if self.inner_args == ((),):
+            # prior to python 3.11, these are the arguments of Tuple[()]
+            self.inner_args = ()
         if len(self.inner_args) == 2 and self.inner_args[-1] is ...:
             self.sub_fillers = (get_filler(self.inner_args[0]),)
         else:
@@ -443,5 +446,8 @@ def _typing(stored_type):
         t = genric_origin_map.get(origin_cls)
         if t:
             return t
+    elif origin_cls == tuple and stored_type is not Tuple and not get_args(stored_type):
+        # Tuple[()], whose only instance is the empty tuple
+        return TupleFiller
     elif origin_cls:
         return GetFiller(origin_cls)
-- 
2.43.0


From 591afdeb75c3718f6d9b484bd6e2dca58deeb2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 19/37] fix: keep the maxlen of deques in sequence fields

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 635bca5..818d47f 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -270,6 +270,8 @@ class GenericIterableFiller(WrapperFiller):
         if isinstance(initial, str):
             # the constructor of strings does not take their elements
             elements = ''.join(elements)
+        if isinstance(initial, deque):
+            return type(initial)(elements, initial.maxlen)
         return type(initial)(elements)
 
     def bind(self, owner_cls):
-- 
2.43.0


From 8d7b76a94ef68587397105700bbb64338003a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 20/37] fix: rebuild defaultdicts and Counters in mapping
 fields

---
 records/fillers/builtin_fillers/typing_fillers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 818d47f..1d81dd5 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -332,6 +332,11 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
+        if isinstance(initial, dict):
+            # the constructors of some dictionaries do not take their tuples
+            tuples = dict(tuples)
+        if isinstance(initial, defaultdict):
+            return type(initial)(initial.default_factory, tuples)
         return type(initial)(tuples)
 
     def bind(self, owner_cls):
-- 
2.43.0


From 5fc90b89324e0c237372a255ea89c93dc62abae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 21/37] fix: apply the validators of unchecked hints inside
 containers and unions

---
 .../fillers/builtin_fillers/typing_fillers.py  | 18 ++++++++++++------
 records/fillers/filler.py                      | 11 ++++++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 1d81dd5..8549fb6 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -47,7 +47,7 @@ class UnionFiller(Filler):
         * Then, all the successful sub-fillers are put through validation.
         * Validation succeeds only if exactly one sub-filler succeeded.
         """
-        if self.is_hollow():
+        if self.is_passthrough():
             return FillingSuccess(arg, TypePassKind.hollow)
         best_results = []
         best_key = float('inf')
@@ -80,6 +80,9 @@ class UnionFiller(Filler):
     def is_hollow(self) -> bool:
         return all(sf.is_hollow() for sf in self.sub_fillers)
 
+    def is_passthrough(self) -> bool:
+        return all(sf.is_passthrough() for sf in self.sub_fillers)
+
     def sub_filler(self, key):
         if isinstance(key, int):
             return self.sub_fillers[key]
@@ -132,6 +135,9 @@ class WrapperFiller(Filler):
     def is_hollow(self) -> bool:
         return self.inner_filler.is_hollow()
 
+    def is_passthrough(self) -> bool:
+        return self.inner_filler.is_passthrough()
+
     def apply(self, token):
         self.inner_filler.apply(token)
 
@@ -178,7 +184,7 @@ class TupleFiller(WrapperFiller):
         if len(self.inner_args) == 2 and self.inner_args[-1] is ...:
             inner_filler = self.sub_fillers[0]
             inner_filler.bind(owner_cls)
-            if not inner_filler.is_hollow():
+            if not inner_filler.is_passthrough():
                 if self.is_hollow():
                     raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -207,7 +213,7 @@ class TupleFiller(WrapperFiller):
 
             for f in self.sub_fillers:
                 f.bind(owner_cls)
-            if not all(inner_filler.is_hollow() for inner_filler in self.sub_fillers):
+            if not all(inner_filler.is_passthrough() for inner_filler in self.sub_fillers):
                 if self.is_hollow():
                     raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -278,7 +284,7 @@ class GenericIterableFiller(WrapperFiller):
         super().bind(owner_cls)
 
         self.element_filler.bind(owner_cls)
-        if not self.element_filler.is_hollow():
+        if not self.element_filler.is_passthrough():
             if self.is_hollow():
                 raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -343,7 +349,7 @@ class GenericMappingFiller(WrapperFiller):
         super().bind(owner_cls)
         self.key_filler.bind(owner_cls)
         self.value_filler.bind(owner_cls)
-        if not self.key_filler.is_hollow() or not self.value_filler.is_hollow():
+        if not self.key_filler.is_passthrough() or not self.value_filler.is_passthrough():
             if self.is_hollow():
                 raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -395,7 +401,7 @@ class GenericFillerN(WrapperFiller):
         fillers = [get_filler(it) for it in self.inner_types]
         for f in fillers:
             f.bind(owner_cls)
-            if not f.is_hollow():
+            if not f.is_passthrough():
                 raise TypeError('A non-specialized filler cannot have non-hollow inner types')
 
 
diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index d5172d7..4cf5cd1 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -121,6 +121,12 @@ class Filler(Generic[T]):
         """
         pass
 
+    def is_passthrough(self) -> bool:
+        """
+        :return: Whether or not the filler accepts any input and returns it as it is. A hollow filler may still validate.
+        """
+        return self.is_hollow()
+
     @abstractmethod
     def apply(self, token):
         """
@@ -220,7 +226,7 @@ class AnnotatedFiller(Filler, Generic[T]):
             raise ValueError('cannot have hollow type checking with coercers')
 
     def __call__(self, arg):
-        if self.type_checking_style is TypeCheckStyle.hollow and not self.validators:
+        if self.is_passthrough():
             return arg
         return super().__call__(arg)
 
@@ -271,3 +277,6 @@ class AnnotatedFiller(Filler, Generic[T]):
 
     def is_hollow(self) -> bool:
         return self.type_checking_style == TypeCheckStyle.hollow
+
+    def is_passthrough(self) -> bool:
+        return self.is_hollow() and not self.validators
-- 
2.43.0


From 05d62ffc3bc2ed21d82024e89541f8f99c0fa098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 22/37] fix: let post_new replace the record by an instance
 that is falsy

---
 records/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 8821581..8215b42 100644
--- a/records/record.py
+++ b/records/record.py
@@ -237,7 +237,9 @@ class RecordBase:
             self._hash = None
 
         try:
-            self = self.post_new() or self
+            replacement = self.post_new()
+            if replacement is not None:
+                self = replacement
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
             if parsing is not None:
-- 
2.43.0


From e8ab53f342ea9125b8744057163609a59dc7c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 23/37] fix: name the field of errors whose class rejects a
 message with any error

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 8215b42..98f917f 100644
--- a/records/record.py
+++ b/records/record.py
@@ -220,7 +220,7 @@ class RecordBase:
                 # try to create a parent error of the same type as the original error
                 try:
                     parent_error = type(e)(msg)
-                except TypeError:
+                except Exception:
                     parent_error = ValueError(msg)
 
                 raise parent_error from e
-- 
2.43.0


From aec2ab82f82d5ec7199f363a61fcbc6863b6365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 24/37] fix: accept a parsing result that is None

---
 records/record.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/records/record.py b/records/record.py
index 98f917f..28fa624 100644
--- a/records/record.py
+++ b/records/record.py
@@ -20,6 +20,7 @@ except ImportError:
     Final = object()
 
 NO_ARG = object()
+NO_PARSING = object()
 
 exclude_from_ordering = Tag(object())
 """
@@ -180,8 +181,8 @@ class RecordBase:
             If ``arg`` can be interpreted as both a parsing argument and as the trivial field. A ``TypeError`` is
             raised.
         """
-        # parsing stores the parsing result, if any
-        parsing = None
+        # parsing stores the parsing result, if any (it may be any object, None included)
+        parsing = NO_PARSING
         if arg is not NO_ARG:
             # handle the positional
             if not kwargs and cls._unary_parse:
@@ -194,7 +195,7 @@ class RecordBase:
 
             if len(cls._required_keys) != 1:
                 # no trivial field
-                if parsing is not None:
+                if parsing is not NO_PARSING:
                     return parsing
                 raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')
 
@@ -214,7 +215,7 @@ class RecordBase:
                 values[k] = cls._fields[k].filler(v)
             except Exception as e:
                 # if filling failed, check if we have a parsing standing by
-                if parsing is not None:
+                if parsing is not NO_PARSING:
                     return parsing
                 msg = f'error filling filling {k}'
                 # try to create a parent error of the same type as the original error
@@ -242,13 +243,13 @@ class RecordBase:
                 self = replacement
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing is not None:
+            if parsing is not NO_PARSING:
                 return parsing
             raise
 
         # if we have successfully create an instance with positional argument, but still managed parsing, the we fail
         # we keep this check till last but
-        if parsing is not None:
+        if parsing is not NO_PARSING:
             raise TypeError(f'positional argument of type {type(arg)} can be interpreted both as trivial argument '
                             'and as unary argument')
         return self
-- 
2.43.0


From 5043678bac3b0e2f0201f85e43ad138a56358343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 25/37] fix: fall back on the parsing result if a default
 factory fails

---
 records/record.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 28fa624..d86230b 100644
--- a/records/record.py
+++ b/records/record.py
@@ -228,8 +228,14 @@ class RecordBase:
         if not (cls._required_keys <= kwargs.keys()):
             required = cls._required_keys.difference(kwargs)
             raise TypeError(f'missing required arguments: {tuple(required)}')
-        for k in cls._optional_keys.difference(kwargs):
-            values[k] = cls._fields[k].make_default()
+        try:
+            for k in cls._optional_keys.difference(kwargs):
+                values[k] = cls._fields[k].make_default()
+        except Exception:
+            # if a default factory failed, check if we have a parsing standing by
+            if parsing is not NO_PARSING:
+                return parsing
+            raise
 
         self = super().__new__(cls)
         # we set directly into __dict__ because the class may be frozen and setattr would fail us
-- 
2.43.0


From 846e87ec1e9d84c4787307894cdcf8f775d3c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 26/37] fix: use attributes that equal their field's default in
 from_instance

---
 records/record.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/records/record.py b/records/record.py
index d86230b..821b991 100644
--- a/records/record.py
+++ b/records/record.py
@@ -310,7 +310,7 @@ class RecordBase:
     def _to_dict(cls, obj, include_defaults=False, sort=None,
                  blacklist_tags: Union[Container[Tag], Tag] = frozenset(),
                  whitelist_keys: Union[Container[str], str] = frozenset(),
-                 _rev_select: Select = Select.empty) -> Dict[str, Any]:
+                 _rev_select: Optional[Select] = None) -> Dict[str, Any]:
         """
         Create a dict representing the values of the class's fields for an arbitrary objects
 
@@ -328,7 +328,7 @@ class RecordBase:
          ``include_defaults``.
 
         :param _rev_select: A private :py:class:`.Select`, intended to be applied over the result, the function will
-         attempt to extract the appropriate keys to fit the select
+         attempt to extract the appropriate keys to fit the select, and all values, equal to their default or not.
 
         :return: A ``dict`` object with key names as specified by ``include_defaults``, ``sort``, ``blacklist_tags``,
          ``whitelist_keys``, and with values according to ``obj``'s attributes.
@@ -349,7 +349,8 @@ class RecordBase:
 
         def export_value(f: RecordField, v):
             return f.name in whitelist_keys \
-                   or include_defaults or not (f.has_default and f.is_default(v))
+                   or include_defaults or _rev_select is not None \
+                   or not (f.has_default and f.is_default(v))
 
         missing_ok = cls._optional_keys
         extraction_dict = cls._fields
-- 
2.43.0


From ccd7152d3a83c5e1e446f73f3c29b56c6010a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 27/37] fix: skip class variables declared with a bare ClassVar

---
 records/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/field.py b/records/field.py
index 6769f0d..ef27886 100644
--- a/records/field.py
+++ b/records/field.py
@@ -112,7 +112,7 @@ class RecordField:
             raise TypeError('raw Final cannot be use inside records')
         origin, args = split_annotation(th)
         meta_org = get_origin(origin)
-        if meta_org == ClassVar:
+        if meta_org == ClassVar or origin is ClassVar:
             return SKIP_FIELD
         if meta_org is Final:
             if not owner.is_frozen():
-- 
2.43.0


From cb15199df28b0718c12add158c36fa9ce27d9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 28/37] fix: apply the annotations within new types

---
 records/utils/typing_compatible.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/records/utils/typing_compatible.py b/records/utils/typing_compatible.py
index 9d039b9..c29202c 100644
--- a/records/utils/typing_compatible.py
+++ b/records/utils/typing_compatible.py
@@ -53,10 +53,15 @@ else:
 
 
 def split_annotation(v):
-    if not is_annotation(v):
-        return v, ()
-    t, *args = get_args(v)
-    return t, args
+    args = ()
+    if is_annotation(v):
+        v, *args = get_args(v)
+    supertype = getattr(v, '__supertype__', None)
+    if supertype:
+        # a new type has the annotations of its supertype
+        v, super_args = split_annotation(supertype)
+        args = [*super_args, *args]
+    return v, args
 
 
 __all__ = ['get_args', 'get_origin', 'Annotated', 'get_type_hints', 'is_annotation', 'split_annotation']
-- 
2.43.0


From 17efa77c258898d052a5dc2bd0325d113ae20b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 29/37] fix: fill unions written with | as unions

---
 records/fillers/builtin_fillers/typing_fillers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 8549fb6..e6dda7b 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -17,6 +17,11 @@ try:
 except ImportError:
     Literal = object()
 
+try:
+    from types import UnionType
+except ImportError:
+    UnionType = Union
+
 
 class UnionFiller(Filler):
     """
@@ -445,7 +450,7 @@ def _typing(stored_type):
         return GetFiller(object)
 
     origin_cls = get_origin(stored_type)
-    if origin_cls == Union:
+    if origin_cls == Union or origin_cls == UnionType:
         return UnionFiller
     if origin_cls == Literal:
         return LiteralFiller
-- 
2.43.0


From e9b750133e335f8253cbc7038bca0a17ed499ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 30/37] fix: reject tokens inside of hints whose arguments are
 not filled

---
 .../fillers/builtin_fillers/typing_fillers.py |  4 ++-
 records/fillers/get_filler.py                 | 29 ++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index e6dda7b..7259f42 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -9,7 +9,7 @@ from typing import Any, Sequence, Tuple, TypeVar, Union
 
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.filler import (AnnotatedFiller, Filler, TypeMatch, FillingSuccess, TypePassKind)
-from records.fillers.get_filler import get_annotated_filler, get_filler
+from records.fillers.get_filler import forbid_inner_tokens, get_annotated_filler, get_filler
 from records.utils.typing_compatible import get_args, get_origin
 
 try:
@@ -456,9 +456,11 @@ def _typing(stored_type):
         return LiteralFiller
     if origin_cls == type:
         if has_args(stored_type):
+            forbid_inner_tokens(stored_type)
             return TypeFiller
         return GetFiller(type)
     if origin_cls == CallableBase:
+        forbid_inner_tokens(stored_type)
         return GetFiller(callable)
     if has_args(stored_type):
         t = genric_origin_map.get(origin_cls)
diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index d440fe3..41893ac 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -1,7 +1,33 @@
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.builtin_fillers.repo import builtin_filler_checkers, builtin_filler_map
+from records.fillers.coercers import CoercionToken
 from records.fillers.filler import Filler, TypeCheckStyle, TypePassKind, FillingSuccess
-from records.utils.typing_compatible import split_annotation
+from records.fillers.validators import ValidationToken
+from records.utils.typing_compatible import get_args, split_annotation
+
+
+def _is_effective_token(token):
+    if isinstance(token, TypeCheckStyle):
+        return token is not TypeCheckStyle.hollow
+    return any(
+        isinstance(c, type) and issubclass(c, (CoercionToken, ValidationToken))
+        for c in (type(token), token, getattr(token, '__wrapped__', None))
+    )
+
+
+def forbid_inner_tokens(stored_type):
+    """
+    Check that a type hint whose arguments are not filled has no tokens inside its arguments
+    :param stored_type: the type annotation to check
+    :raises TypeError: if any tokens are inside the hint's arguments, since they would have no effect.
+    """
+    for arg in get_args(stored_type) or ():
+        arg_hints = arg if isinstance(arg, list) else [arg]  # the parameters of a callable are a list
+        for hint in arg_hints:
+            origin, tokens = split_annotation(hint)
+            if any(_is_effective_token(t) for t in tokens):
+                raise TypeError(f'cannot have tokens inside of type {stored_type}')
+            forbid_inner_tokens(origin)
 
 
 class DumbFiller(Filler):
@@ -11,6 +37,7 @@ class DumbFiller(Filler):
 
     def __init__(self, origin):
         super().__init__()
+        forbid_inner_tokens(origin)
         self.origin = origin
 
     def fill(self, arg):
-- 
2.43.0


From 940bbc671424ef007ea16b676fc552c95c0f811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 31/37] fix: look through new types of None

---
 records/utils/typing_compatible.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/records/utils/typing_compatible.py b/records/utils/typing_compatible.py
index c29202c..3965a78 100644
--- a/records/utils/typing_compatible.py
+++ b/records/utils/typing_compatible.py
@@ -56,10 +56,9 @@ def split_annotation(v):
     args = ()
     if is_annotation(v):
         v, *args = get_args(v)
-    supertype = getattr(v, '__supertype__', None)
-    if supertype:
+    if hasattr(v, '__supertype__'):
         # a new type has the annotations of its supertype
-        v, super_args = split_annotation(supertype)
+        v, super_args = split_annotation(v.__supertype__)
         args = [*super_args, *args]
     return v, args
 
-- 
2.43.0


From c49cd7c7c228b69d607f4d2289964c79b83592a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 32/37] fix: accept hints with annotations that are not
 hashable

---
 records/fillers/get_filler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index 41893ac..eddfd7d 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -75,7 +75,11 @@ def get_annotated_filler(origin, args: tuple):
         usually it's preferable to call `get_filler` with `Annotated`.
     """
     # there are 4 ways a filler is made:
-    blt = builtin_filler_map.get(origin)
+    try:
+        blt = builtin_filler_map.get(origin)
+    except TypeError:
+        # the type has annotations that are not hashable
+        blt = None
     if blt:
         # a mapping of types to filler classes (for shourtcuts)
         return blt(origin, args)
-- 
2.43.0


From e590037378e7ff9219f6190cb3cb499ea316425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 33/37] fix: constrain Loose to no types when given an empty
 tuple

---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index ad6eb65..8cb2051 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -124,7 +124,7 @@ class Loose(LooseMixin):
         self._type_constraint: Union[None, type, Tuple[type, ...]] = None
 
     def func_args(self, origin, v):
-        if self._type_constraint and not isinstance(v, self._type_constraint):
+        if self._type_constraint is not None and not isinstance(v, self._type_constraint):
             raise TypeError(f'must be of type {self._type_constraint}')
         return origin(v, *self.args, **self.kwargs)
 
-- 
2.43.0


From 90900a5c2e586008145469067d4fefcc0bac161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 34/37] fix: keep the fields of a class in declaration order

Names that are annotated in a base class, too (as a class variable, or in a
class that is not a record), came before the other names of the class.
---
 records/record.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/records/record.py b/records/record.py
index 821b991..2f53c31 100644
--- a/records/record.py
+++ b/records/record.py
@@ -100,12 +100,11 @@ class RecordBase:
         cls._fields = FieldDict()
         # in bodyless classes, __annotations__ refers to parent
         own_annotations = cls.__dict__.get('__annotations__', {})
-        for name, type_hint in get_type_hints(cls, localns={cls.__name__: cls, cls.__qualname__: cls}).items():
-            if name not in own_annotations:
-                # type hints also give things from super classes which we don't want
-                continue
+        # type hints also give things from super classes which we don't want, and puts them first
+        type_hints = get_type_hints(cls, localns={cls.__name__: cls, cls.__qualname__: cls})
+        for name in own_annotations:
             # initialize the field
-            field = RecordField.from_type_hint(type_hint,
+            field = RecordField.from_type_hint(type_hints[name],
                                                owner=cls, name=name,
                                                default=getattr_static(cls, name, NO_DEFAULT))
             if field is SKIP_FIELD:
-- 
2.43.0


From d72bbf82d56ca64fb7ff118c7c5464501d99a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 35/37] fix: keep the types a Literal accepts when one of its
 validators is given another

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 7259f42..c5c590c 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -116,7 +116,7 @@ class LiteralFiller(AnnotatedFiller):
         if not self.is_hollow():
             @self.validators.append
             def inner_validator(v):
-                if v not in self.possible_values[type(v)]:
+                if v not in self.possible_values.get(type(v), ()):
                     raise ValueError
                 return v
 
-- 
2.43.0


From 93b1e44690fa0f8269a16f402b34fd67bcfcb0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 36/37] fix: only what the class body assigns is the default of
 a field, not an attribute of a base or of the metaclass

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 2f53c31..282133c 100644
--- a/records/record.py
+++ b/records/record.py
@@ -106,7 +106,7 @@ class RecordBase:
             # initialize the field
             field = RecordField.from_type_hint(type_hints[name],
                                                owner=cls, name=name,
-                                               default=getattr_static(cls, name, NO_DEFAULT))
+                                               default=cls.__dict__.get(name, NO_DEFAULT))
             if field is SKIP_FIELD:
                 continue
             cls._fields[name] = field
-- 
2.43.0


From 8723704fd3f3756bb73d070e4b0b04f31f9eb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:25 +0000
Subject: [PATCH 37/37] fix: from_mapping does not look a name up in mappings
 that lack it, which may make a value up

---
 records/record.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 282133c..e587ada 100644
--- a/records/record.py
+++ b/records/record.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from collections import ChainMap
 from copy import deepcopy
 from inspect import getattr_static
 from typing import AbstractSet, Any, Callable, ClassVar, Container, Dict, List, Mapping, Optional, TypeVar, Union, \
@@ -470,7 +469,11 @@ class RecordBase:
         .. note::
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
-        return ChainMap(*maps, dict(**kwargs))
+        # not a ChainMap: it asks mappings for the keys of one another, for which they may make up values
+        ret = dict(kwargs)
+        for m in reversed(maps):
+            ret.update({**m})
+        return ret
 
     @SpecializedShortcutFactory
     @classmethod
-- 
2.43.0

