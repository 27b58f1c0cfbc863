From bb80c3064420f0349699b4accba294be0e560bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 01/28] fix: give every coercer the original argument, not the
 rejected result of the one before it

---
 records/fillers/filler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index b58e816..c9051c4 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -191,15 +191,16 @@ class AnnotatedFiller(Filler, Generic[T]):
                     raise TypeError(f'failed type checking for value of type {type(arg)}')
                 for i, coercer in enumerate(self.coercers):
                     try:
-                        arg = coercer(arg)
-                        tc = self.type_check(arg)
+                        coerced = coercer(arg)
+                        tc = self.type_check(coerced)
                         if tc is None \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
-                            raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
+                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
                         if i == len(self.coercers) - 1:
                             raise
                     else:
+                        arg = coerced
                         break
                 tpk = TypePassKind.coerce
 
-- 
2.43.0


From 0f49cb1d5ed2acc7b47790b28d70d31c1bc7fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 02/28] fix: reject coercion results that fail type checks
 which return False (None, Ellipsis, callables, literals)

---
 records/fillers/filler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index c9051c4..d5172d7 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -193,7 +193,7 @@ class AnnotatedFiller(Filler, Generic[T]):
                     try:
                         coerced = coercer(arg)
                         tc = self.type_check(coerced)
-                        if tc is None \
+                        if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                             raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
-- 
2.43.0


From 825921f3a28e65269edeec2f7914acfa0c65cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 03/28] fix: looking up a literal's values must not add types
 to the filler

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a745b51..c599917 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -108,7 +108,7 @@ class LiteralFiller(AnnotatedFiller):
         if not self.is_hollow():
             @self.validators.append
             def inner_validator(v):
-                if v not in self.possible_values[type(v)]:
+                if v not in self.possible_values.get(type(v), ()):
                     raise ValueError
                 return v
 
-- 
2.43.0


From c4838b24f148513971fd3f283cd7b29eba583054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 04/28] fix: rebuild strings and mappings (counters, chain
 maps, proxies) from their filled elements

---
 records/fillers/builtin_fillers/typing_fillers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index c599917..1307313 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -264,6 +264,8 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
+        if isinstance(initial, str):
+            elements = ''.join(elements)
         return type(initial)(elements)
 
     def bind(self, owner_cls):
@@ -324,7 +326,7 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
-        return type(initial)(tuples)
+        return type(initial)(dict(tuples))
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
-- 
2.43.0


From 9b5fc10dcd7a61716c2eb17c30ba4f8e9c4e8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 05/28] fix: keep the keys of a Select, so that those given as
 one-shot iterators apply on every use

---
 records/select.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/records/select.py b/records/select.py
index 4b3678d..ba6498d 100644
--- a/records/select.py
+++ b/records/select.py
@@ -44,12 +44,12 @@ class Select:
             keys_to_remove = (keys_to_remove,)
         if isinstance(keys_to_maybe_remove, str):
             keys_to_maybe_remove = (keys_to_maybe_remove,)
-        self.keys_to_add = keys_to_add
-        self.keys_to_maybe_add = keys_to_maybe_add
-        self.keys_to_remove = keys_to_remove
-        self.keys_to_maybe_remove = keys_to_maybe_remove
-        self.keys_to_rename = keys_to_rename
-        self.keys_to_maybe_rename = keys_to_maybe_rename
+        self.keys_to_add = tuple(keys_to_add)
+        self.keys_to_maybe_add = tuple(keys_to_maybe_add)
+        self.keys_to_remove = tuple(keys_to_remove)
+        self.keys_to_maybe_remove = tuple(keys_to_maybe_remove)
+        self.keys_to_rename = tuple(keys_to_rename)
+        self.keys_to_maybe_rename = tuple(keys_to_maybe_rename)
 
         # the Select's truthiness is cached
         self._bool = None
-- 
2.43.0


From 1c46f5eaeefc22c670e1bb80e35740ec6227eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 06/28] fix: make defaults in declaration order, not in set
 order

---
 records/record.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 75703a0..24f3307 100644
--- a/records/record.py
+++ b/records/record.py
@@ -227,8 +227,9 @@ class RecordBase:
         if not (cls._required_keys <= kwargs.keys()):
             required = cls._required_keys.difference(kwargs)
             raise TypeError(f'missing required arguments: {tuple(required)}')
-        for k in cls._optional_keys.difference(kwargs):
-            values[k] = cls._fields[k].make_default()
+        for k, field in cls._fields.items():
+            if k not in kwargs:
+                values[k] = field.make_default()
 
         self = super().__new__(cls)
         # we set directly into __dict__ because the class may be frozen and setattr would fail us
-- 
2.43.0


From afacba6b3a63ef1655751a297f975c7dcfa9614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 07/28] fix: do not drop parsed or post_new results that are
 falsy

---
 records/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 24f3307..835fe46 100644
--- a/records/record.py
+++ b/records/record.py
@@ -238,12 +238,14 @@ class RecordBase:
             self._hash = None
 
         try:
-            self = self.post_new() or self
+            replacement = self.post_new()
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing:
+            if parsing is not None:
                 return parsing
             raise
+        if replacement is not None:
+            self = replacement
 
         # if we have successfully create an instance with positional argument, but still managed parsing, the we fail
         # we keep this check till last but
-- 
2.43.0


From 079703696ec0513ddbce2e513674009f26b54715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 08/28] fix: report filling errors whose type cannot be built
 from a message, however its constructor fails

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 835fe46..98c9828 100644
--- a/records/record.py
+++ b/records/record.py
@@ -220,7 +220,7 @@ class RecordBase:
                 # try to create a parent error of the same type as the original error
                 try:
                     parent_error = type(e)(msg)
-                except TypeError:
+                except Exception:
                     parent_error = ValueError(msg)
 
                 raise parent_error from e
-- 
2.43.0


From b8108e9efacbe005b1a5af657f4364dda89483cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 09/28] fix: keep the fields of inheriting classes a FieldDict

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 98c9828..99f47a9 100644
--- a/records/record.py
+++ b/records/record.py
@@ -122,7 +122,7 @@ class RecordBase:
                     raise ValueError(f'cannot override inherited field {k}')
                 parent_fields[k] = field
         if parent_fields:
-            cls._fields = {**parent_fields, **cls._fields}
+            cls._fields = FieldDict({**parent_fields, **cls._fields})
 
         if any(b for b in cls.__bases__ if b.__init__ not in (RecordBase.__init__, object.__init__)):
             warn(f'class {cls} has parents that implement __init__, the initializer will not be called!')
-- 
2.43.0


From 19bbb36d0ea667f12ffe2c33db57db416007829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 10/28] fix: forbid deleting attributes of frozen records

---
 records/record.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/records/record.py b/records/record.py
index 99f47a9..e63d196 100644
--- a/records/record.py
+++ b/records/record.py
@@ -428,6 +428,11 @@ class RecordBase:
             return super().__setattr__(a, value)
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
+    def __delattr__(self, a):
+        if self.is_frozen():
+            raise TypeError(f'{type(self).__qualname__} is frozen')
+        super().__delattr__(a)
+
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
-- 
2.43.0


From 2906453937f6d8b10f20702b052b09d5d3a43a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 11/28] fix: do not pickle the cached hash, it is wrong in
 other processes

---
 records/record.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/records/record.py b/records/record.py
index e63d196..bc55d49 100644
--- a/records/record.py
+++ b/records/record.py
@@ -436,6 +436,15 @@ class RecordBase:
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
+    def __reduce_ex__(self, protocol):
+        ret = super().__reduce_ex__(protocol)
+        if isinstance(ret, tuple) and len(ret) > 2 and isinstance(ret[2], tuple) and len(ret[2]) == 2:
+            dict_state, slot_state = ret[2]
+            if isinstance(slot_state, dict) and '_hash' in slot_state:
+                # a hash is only valid in the process that calculated it
+                ret = (*ret[:2], (dict_state, {**slot_state, '_hash': None}), *ret[3:])
+        return ret
+
     @parser
     @SelectableFactory
     @classmethod
-- 
2.43.0


From 792762a7d092e554c378269eaa469b39d9568606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 12/28] fix: copy the values of records as they are, without
 sharing defaults or losing the memo

---
 records/record.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/records/record.py b/records/record.py
index bc55d49..53e3339 100644
--- a/records/record.py
+++ b/records/record.py
@@ -661,13 +661,20 @@ class RecordBase:
     def __copy__(self):
         if self.is_frozen():
             return self
-        return type(self).from_instance(self)
+        # the values were already filled when the original was created, so they are copied as they are
+        ret = super().__new__(type(self))
+        ret.__dict__.update(self.__dict__)
+        return ret
 
     def __deepcopy__(self, memo=None):
-        memo = memo or {}
-        d = self.to_dict()
-        d = deepcopy(d, memo)
-        return self.from_mapping(d)
+        if memo is None:
+            memo = {}
+        ret = super().__new__(type(self))
+        if self.is_frozen():
+            ret._hash = None
+        memo[id(self)] = ret
+        ret.__dict__.update(deepcopy(self.__dict__, memo))
+        return ret
 
     def __ordering_key(self):
         f: RecordField
-- 
2.43.0


From 3d8391e9eb7c146d82ce92ac93f6ece4d0bc514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 13/28] fix: compare frozen records whose values are not
 hashable

---
 records/record.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 53e3339..f47171d 100644
--- a/records/record.py
+++ b/records/record.py
@@ -284,8 +284,13 @@ class RecordBase:
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        if type(self).is_frozen() and hash(self) != hash(other):
-            return False
+        if type(self).is_frozen():
+            try:
+                if hash(self) != hash(other):
+                    return False
+            except TypeError:
+                # some values are not hashable, but they can still be compared
+                pass
         for name in self._fields:
             if getattr(self, name) != getattr(other, name):
                 return False
-- 
2.43.0


From 43ce84953a7801d282d7c2ef176e10bb3e1c8e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 14/28] fix: rebuild deques and defaultdicts given to fields of
 more general types

---
 records/fillers/builtin_fillers/typing_fillers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 1307313..ae6f794 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -266,6 +266,8 @@ class GenericIterableFiller(WrapperFiller):
         """
         if isinstance(initial, str):
             elements = ''.join(elements)
+        elif isinstance(initial, deque):
+            return type(initial)(elements, initial.maxlen)
         return type(initial)(elements)
 
     def bind(self, owner_cls):
@@ -326,6 +328,8 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
+        if isinstance(initial, defaultdict):
+            return type(initial)(initial.default_factory, tuples)
         return type(initial)(dict(tuples))
 
     def bind(self, owner_cls):
-- 
2.43.0


From f3e2610ba0dffbdc3f94aa592ed34aaca9c405fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 15/28] fix: rebuild strings that validators return for tuple
 fields

---
 .../fillers/builtin_fillers/typing_fillers.py | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index ae6f794..790f2b5 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -192,7 +192,7 @@ class TupleFiller(WrapperFiller):
                                 [filled],
                                 (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                             )
-                            return type(v)(all_elements)
+                            return _reconstruct_iterable(all_elements, v)
                     return v
         else:
             if not self.is_hollow():
@@ -222,7 +222,7 @@ class TupleFiller(WrapperFiller):
                                 (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                             self.sub_fillers[hollow_passes + 1:]))
                             )
-                            return type(v)(all_elements)
+                            return _reconstruct_iterable(all_elements, v)
                     return v
 
     def sub_filler(self, key):
@@ -247,6 +247,20 @@ def _split_at(seq, ignore_ind):
         return islice(i, ignore_ind), islice(i, 1, None)
 
 
+def _reconstruct_iterable(elements, initial):
+    """
+    Create an iterable of the same type as another, with different elements
+    :param elements: the new elements of the iterable
+    :param initial: the original iterable, will not be mutated.
+    :return: a new instance of `initial`'s type, with `elements` as its elements.
+    """
+    if isinstance(initial, str):
+        elements = ''.join(elements)
+    elif isinstance(initial, deque):
+        return type(initial)(elements, initial.maxlen)
+    return type(initial)(elements)
+
+
 class GenericIterableFiller(WrapperFiller):
     """
     A filler for generic variants of concrete iterable classes.
@@ -264,11 +278,7 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
-        if isinstance(initial, str):
-            elements = ''.join(elements)
-        elif isinstance(initial, deque):
-            return type(initial)(elements, initial.maxlen)
-        return type(initial)(elements)
+        return _reconstruct_iterable(elements, initial)
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
-- 
2.43.0


From dc124c9d050dc4f1d94c82ea1e74c8b9ca073b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 16/28] fix: give the parsed record when a default of the
 trivial one cannot be made

---
 records/record.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index f47171d..d1cd173 100644
--- a/records/record.py
+++ b/records/record.py
@@ -229,7 +229,13 @@ class RecordBase:
             raise TypeError(f'missing required arguments: {tuple(required)}')
         for k, field in cls._fields.items():
             if k not in kwargs:
-                values[k] = field.make_default()
+                try:
+                    values[k] = field.make_default()
+                except Exception:
+                    # if a default cannot be made, check if we have a parsing standing by
+                    if parsing is not None:
+                        return parsing
+                    raise
 
         self = super().__new__(cls)
         # we set directly into __dict__ because the class may be frozen and setattr would fail us
-- 
2.43.0


From 36ecb97813494f34a8896c2e3bac30c04e03406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 17/28] fix: a declared error instance no longer accumulates
 the tracebacks of every failed assertion

---
 records/fillers/validators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/validators.py b/records/fillers/validators.py
index 391234c..538e1da 100644
--- a/records/fillers/validators.py
+++ b/records/fillers/validators.py
@@ -64,7 +64,8 @@ class AssertValidation(GlobalValidationToken, ABC):
             else:
                 self.warn.warning(exc)
         else:
-            raise exc
+            # (the same instance may be raised many times, it must not accumulate the tracebacks of all of them)
+            raise exc.with_traceback(None)
 
     @abstractmethod
     def assert_(self, v) -> bool:
-- 
2.43.0


From 9cee3d5139e4019113a784c7a00fa3dd98abc3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 18/28] fix: coerce numbers just below a whole one to that one

---
 records/fillers/builtin_fillers/std_fillers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index c90ce6a..1e0076b 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -265,7 +265,8 @@ class Whole(OriginDependant):
         elif isinstance(v, Real):
             mod = v % 1
             if isclose(mod, 0) or isclose(mod, 1):
-                return origin(v, *self.args, **self.kwargs)
+                # (rounded, since a value just below a whole number would be truncated to the one before)
+                return origin(round(v), *self.args, **self.kwargs)
         elif isinstance(v, Complex):
             if v.imag == 0:
                 return self.func_args(origin, v.real)
-- 
2.43.0


From 508c0e98856b20ca91df2bffea34c12099441a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 19/28] fix: cyclic values just below the lower bound stay
 inside the range

---
 records/fillers/builtin_validators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index d3652ca..1c7f2fc 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -88,7 +88,11 @@ class Cyclic(GlobalValidationToken):
             return v
         d = v - self.minimum
         d %= (self.maximum - self.minimum)
-        return self.minimum + d
+        ret = self.minimum + d
+        if ret >= self.maximum:
+            # the remainder was rounded up (as in -1e-20 % 360.0)
+            ret = self.minimum + (d - d)
+        return ret
 
     def __call__(self, *_):
         return self.inner
-- 
2.43.0


From fda21cb1080a62355fa95eb3645f58268c0679d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 20/28] fix: cyclic decimals below the lower bound are brought
 inside the range

---
 records/fillers/builtin_validators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/fillers/builtin_validators.py b/records/fillers/builtin_validators.py
index 1c7f2fc..2012807 100644
--- a/records/fillers/builtin_validators.py
+++ b/records/fillers/builtin_validators.py
@@ -89,6 +89,9 @@ class Cyclic(GlobalValidationToken):
         d = v - self.minimum
         d %= (self.maximum - self.minimum)
         ret = self.minimum + d
+        if ret < self.minimum:
+            # the remainder of some types (such as Decimal) has the sign of the dividend
+            ret += self.maximum - self.minimum
         if ret >= self.maximum:
             # the remainder was rounded up (as in -1e-20 % 360.0)
             ret = self.minimum + (d - d)
-- 
2.43.0


From dd3ced97797816b8738ab2098bf693f966734be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 21/28] fix: run the validators of unchecked union members and
 container elements

They were skipped silently when every member or element was unchecked (though not
when one of them was). Validated elements of an unchecked container raise when the
class is defined, as checked ones do.
---
 .../fillers/builtin_fillers/typing_fillers.py  | 18 ++++++++++++------
 records/fillers/filler.py                      |  9 +++++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 790f2b5..cc47d79 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -47,7 +47,7 @@ class UnionFiller(Filler):
         * Then, all the successful sub-fillers are put through validation.
         * Validation succeeds only if exactly one sub-filler succeeded.
         """
-        if self.is_hollow():
+        if self.is_trivial():
             return FillingSuccess(arg, TypePassKind.hollow)
         best_results = []
         best_key = float('inf')
@@ -80,6 +80,9 @@ class UnionFiller(Filler):
     def is_hollow(self) -> bool:
         return all(sf.is_hollow() for sf in self.sub_fillers)
 
+    def is_trivial(self) -> bool:
+        return all(sf.is_trivial() for sf in self.sub_fillers)
+
     def sub_filler(self, key):
         if isinstance(key, int):
             return self.sub_fillers[key]
@@ -132,6 +135,9 @@ class WrapperFiller(Filler):
     def is_hollow(self) -> bool:
         return self.inner_filler.is_hollow()
 
+    def is_trivial(self) -> bool:
+        return self.inner_filler.is_trivial()
+
     def apply(self, token):
         self.inner_filler.apply(token)
 
@@ -175,7 +181,7 @@ class TupleFiller(WrapperFiller):
         if len(self.inner_args) == 2 and self.inner_args[-1] is ...:
             inner_filler = self.sub_fillers[0]
             inner_filler.bind(owner_cls)
-            if not inner_filler.is_hollow():
+            if not inner_filler.is_trivial():
                 if self.is_hollow():
                     raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -204,7 +210,7 @@ class TupleFiller(WrapperFiller):
 
             for f in self.sub_fillers:
                 f.bind(owner_cls)
-            if not all(inner_filler.is_hollow() for inner_filler in self.sub_fillers):
+            if not all(inner_filler.is_trivial() for inner_filler in self.sub_fillers):
                 if self.is_hollow():
                     raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -284,7 +290,7 @@ class GenericIterableFiller(WrapperFiller):
         super().bind(owner_cls)
 
         self.element_filler.bind(owner_cls)
-        if not self.element_filler.is_hollow():
+        if not self.element_filler.is_trivial():
             if self.is_hollow():
                 raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -346,7 +352,7 @@ class GenericMappingFiller(WrapperFiller):
         super().bind(owner_cls)
         self.key_filler.bind(owner_cls)
         self.value_filler.bind(owner_cls)
-        if not self.key_filler.is_hollow() or not self.value_filler.is_hollow():
+        if not self.key_filler.is_trivial() or not self.value_filler.is_trivial():
             if self.is_hollow():
                 raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -398,7 +404,7 @@ class GenericFillerN(WrapperFiller):
         fillers = [get_filler(it) for it in self.inner_types]
         for f in fillers:
             f.bind(owner_cls)
-            if not f.is_hollow():
+            if not f.is_trivial():
                 raise TypeError('A non-specialized filler cannot have non-hollow inner types')
 
 
diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index d5172d7..5b5405f 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -121,6 +121,12 @@ class Filler(Generic[T]):
         """
         pass
 
+    def is_trivial(self) -> bool:
+        """
+        :return: Whether the filler does nothing at all. A hollow filler that has validators is not trivial.
+        """
+        return self.is_hollow()
+
     @abstractmethod
     def apply(self, token):
         """
@@ -271,3 +277,6 @@ class AnnotatedFiller(Filler, Generic[T]):
 
     def is_hollow(self) -> bool:
         return self.type_checking_style == TypeCheckStyle.hollow
+
+    def is_trivial(self) -> bool:
+        return self.is_hollow() and not self.validators
-- 
2.43.0


From 5ed28b8e06dd317ec470848999ad24e98fe92c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 22/28] fix: apply the tokens that stand outside of a Final

---
 records/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/records/field.py b/records/field.py
index 31bd34c..85fb2cb 100644
--- a/records/field.py
+++ b/records/field.py
@@ -7,7 +7,7 @@ from records.fillers.filler import Filler
 from records.fillers.get_filler import get_filler
 from records.tags import Tag
 from records.utils.decorators import decorator_kw_method
-from records.utils.typing_compatible import get_args, get_origin, split_annotation
+from records.utils.typing_compatible import Annotated, get_args, get_origin, split_annotation
 
 try:
     from typing import Final
@@ -117,7 +117,10 @@ class RecordField:
         if meta_org is Final:
             if not owner.is_frozen():
                 raise TypeError('cannot declare Final field in non-frozen Record')
-            ret = cls.from_type_hint(get_args(origin)[0], owner=owner, **kwargs)
+            inner = get_args(origin)[0]
+            if args:
+                inner = Annotated[(inner, *args)]
+            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
         else:
             filler = get_filler(th)
             ret = cls(filler=filler, owner=owner, **kwargs)
-- 
2.43.0


From 16a8f30bc2f0a7ea46234e44f918e92a961f1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 23/28] fix: apply the tokens of a NewType's annotated
 supertype

---
 records/fillers/get_filler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index d440fe3..2f61d2e 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -56,7 +56,9 @@ def get_annotated_filler(origin, args: tuple):
         # builtin functions to create a filler class
         ret = checker(origin)
         if isinstance(ret, GetFiller):
-            return get_annotated_filler(ret.new_origin, args)
+            # the new origin may be annotated too (as in a NewType of an Annotated)
+            new_origin, new_args = split_annotation(ret.new_origin)
+            return get_annotated_filler(new_origin, (*new_args, *args))
         elif ret:
             return ret(origin, args)
     if isinstance(origin, type):
-- 
2.43.0


From 2941e975679fb33809d5e9b78707fe5235d45188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 24/28] fix: accept every type for Type[Any]

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index cc47d79..c2c4859 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -453,7 +453,7 @@ def _typing(stored_type):
     if origin_cls == Literal:
         return LiteralFiller
     if origin_cls == type:
-        if has_args(stored_type):
+        if has_args(stored_type) and get_args(stored_type) != (Any,):
             return TypeFiller
         return GetFiller(type)
     if origin_cls == CallableBase:
-- 
2.43.0


From 8f39793cdb5262b943deb25e53c7dab6aa771198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 25/28] fix: check the length of Tuple[()]

---
 records/fillers/builtin_fillers/typing_fillers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index c2c4859..6addc07 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -5,7 +5,7 @@ import contextlib
 from collections import defaultdict, deque
 from collections.abc import Callable as CallableBase
 from itertools import chain, islice
-from typing import Any, Sequence, TypeVar, Union
+from typing import Any, Sequence, Tuple, TypeVar, Union
 
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.filler import (AnnotatedFiller, Filler, TypeMatch, FillingSuccess, TypePassKind)
@@ -462,5 +462,8 @@ def _typing(stored_type):
         t = genric_origin_map.get(origin_cls)
         if t:
             return t
+    elif origin_cls is tuple and stored_type is not Tuple and not get_args(stored_type):
+        # the type of the empty tuple, Tuple[()]
+        return TupleFiller
     elif origin_cls:
         return GetFiller(origin_cls)
-- 
2.43.0


From b4d5be0790f3a8a8d3a6831d480f070cfa8752a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 26/28] fix: combine all the mappings given to from_instance

---
 records/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index d1cd173..56fe8c1 100644
--- a/records/record.py
+++ b/records/record.py
@@ -501,7 +501,9 @@ class RecordBase:
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(*maps, **kwargs)
+        for m in maps:
+            d.update(m)
+        d.update(kwargs)
         return d
 
     @parser
-- 
2.43.0


From 816e217040da1de079d181ad93482d8202208d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 27/28] fix: from_mapping takes keys a defaultdict does not
 contain from the other mappings

---
 records/record.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 56fe8c1..baa09b5 100644
--- a/records/record.py
+++ b/records/record.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from collections import ChainMap
 from copy import deepcopy
 from inspect import getattr_static
 from typing import AbstractSet, Any, Callable, ClassVar, Container, Dict, List, Mapping, Optional, TypeVar, Union, \
@@ -474,7 +473,12 @@ class RecordBase:
         .. note::
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
-        return ChainMap(*maps, dict(**kwargs))
+        # (a mapping may make up values for keys that it does not contain)
+        ret = dict(kwargs)
+        for m in reversed(maps):
+            for k in m:
+                ret[k] = m[k]
+        return ret
 
     @SpecializedShortcutFactory
     @classmethod
-- 
2.43.0


From 1f9351d75761a3928a55dba7306bfaa3744e5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 28/28] fix: Loose.constrain(()) accepts nothing, as the other
 constrained coercers do

---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index 1e0076b..c2abb53 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -124,7 +124,7 @@ class Loose(LooseMixin):
         self._type_constraint: Union[None, type, Tuple[type, ...]] = None
 
     def func_args(self, origin, v):
-        if self._type_constraint and not isinstance(v, self._type_constraint):
+        if self._type_constraint is not None and not isinstance(v, self._type_constraint):
             raise TypeError(f'must be of type {self._type_constraint}')
         return origin(v, *self.args, **self.kwargs)
 
-- 
2.43.0

