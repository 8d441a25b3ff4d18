From 78da2fd7ca6182f806fbc8d2e2022e77085201b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 01/96] fix: do not modify the loaded object when unpacking
 hashed keys

---
 jsons/deserializers/default_dict.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1bf7a5d..f5ef74c 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -55,7 +55,6 @@ def _load_hashed_keys(
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
-            del result['-keys'][key]
             del result[key]
 
         del result['-keys']
-- 
2.43.0


From 5edd2f251478fb8d806dbd8b177bd884bb555beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 02/96] fix: do not lose elements of a dict when the hashes of
 keys collide

---
 jsons/serializers/default_dict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 3f04af1..450eb84 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -39,7 +39,7 @@ def default_dict_serializer(
 
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key,
+        dict_and_key = _store_and_hash(result, key, taken=obj,
                                        key_transformer=key_transformer,
                                        strip_nulls=strip_nulls, strict=strict,
                                        types=types, **kwargs)
@@ -62,6 +62,7 @@ def default_dict_serializer(
 def _store_and_hash(
         obj: dict,
         key: object,
+        taken: dict,
         **kwargs
 ) -> Optional[Tuple[dict, int]]:
     # Store the given key in the given dict under a special section if that
@@ -76,6 +77,9 @@ def _store_and_hash(
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
+            while key_hash in obj_['-keys'] or key_hash in taken:
+                # Different keys may share a hash, find one that is free.
+                key_hash += 1
             obj_['-keys'][key_hash] = dumped_key
             result = obj_, key_hash
     return result
-- 
2.43.0


From 8e2069f4047e11b1525ad542e4c6d335109e46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 03/96] fix: do not store the hashed keys of stripped null
 values

---
 jsons/serializers/default_dict.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 450eb84..1c43a40 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -37,15 +37,6 @@ def default_dict_serializer(
         obj_ = obj[key]
         cls_ = types.get(key, None)
 
-        # If key is not a valid json type, use the hash as key and store the
-        # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key, taken=obj,
-                                       key_transformer=key_transformer,
-                                       strip_nulls=strip_nulls, strict=strict,
-                                       types=types, **kwargs)
-        if dict_and_key:
-            result, key = dict_and_key
-
         dumped_elem = dump(obj_,
                            cls=cls_,
                            key_transformer=key_transformer,
@@ -53,6 +44,16 @@ def default_dict_serializer(
                            strict=strict,
                            **kwargs)
         if not (strip_nulls and dumped_elem is None):
+            # If key is not a valid json type, use the hash as key and store
+            # the original key in a separate section.
+            dict_and_key = _store_and_hash(result, key, taken=obj,
+                                           key_transformer=key_transformer,
+                                           strip_nulls=strip_nulls,
+                                           strict=strict,
+                                           types=types, **kwargs)
+            if dict_and_key:
+                result, key = dict_and_key
+
             if key_transformer:
                 key = key_transformer(key)
             result[key] = dumped_elem
-- 
2.43.0


From 4e9157aa75ec7921e9de855375f4e87e815d016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 04/96] fix: load the ordinary keys of a dict that also holds
 hashed keys

---
 jsons/deserializers/default_dict.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index f5ef74c..ad6e17f 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -23,20 +23,21 @@ def default_dict_deserializer(
     """
     cls_args = get_args(cls)
 
-    obj_, keys_were_hashed = _load_hashed_keys(
+    obj_, loaded_keys = _load_hashed_keys(
         obj, cls, cls_args, key_transformer=key_transformer, **kwargs)
 
-    return _deserialize(obj_, cls_args, key_transformer, keys_were_hashed, kwargs)
+    return _deserialize(obj_, cls_args, key_transformer, loaded_keys, kwargs)
 
 
 def _load_hashed_keys(
         obj: dict,
         cls: type,
         cls_args: tuple,
-        **kwargs) -> Tuple[dict, bool]:
+        **kwargs) -> Tuple[dict, set]:
     # Load any hashed keys and return a copy of the given obj if any hashed
     # keys are unpacked.
     result = obj
+    loaded_keys = set()
 
     stored_keys = set(obj.get('-keys', set()))
     if stored_keys:
@@ -55,17 +56,18 @@ def _load_hashed_keys(
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
+            loaded_keys.add(loaded_key)
             del result[key]
 
         del result['-keys']
-    return result, len(stored_keys) > 0
+    return result, loaded_keys
 
 
 def _deserialize(
         obj: dict,
         cls_args: tuple,
         key_transformer: Callable[[str], str],
-        keys_were_hashed: bool,
+        loaded_keys: set,
         kwargs: dict) -> dict:
     key_transformer = key_transformer or (lambda key: key)
     key_func = key_transformer
@@ -74,12 +76,12 @@ def _deserialize(
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
-        if not keys_were_hashed:
-            # In case of cls is something like Dict[<key>, <value>], we need to
-            # ensure that the keys in the result are <key>. If the keys were
-            # hashed though, they have been loaded already.
-            kwargs_k = {**kwargs, 'cls': cls_k}
-            key_func = lambda key: load(key_transformer(key), **kwargs_k)
+        # In case of cls is something like Dict[<key>, <value>], we need to
+        # ensure that the keys in the result are <key>. If the keys were hashed
+        # though, they have been loaded already.
+        kwargs_k = {**kwargs, 'cls': cls_k}
+        key_func = lambda key: (key if key in loaded_keys
+                                else load(key_transformer(key), **kwargs_k))
     return {
         key_func(key): load(obj[key], **kwargs_)
         for key in obj
-- 
2.43.0


From 2d30977252e667d45ecf0c480fd798f8f0386f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 05/96] fix: allow verbose dumps of dicts with keys other than
 strings

---
 jsons/serializers/default_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92cc570..84930a0 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -298,9 +298,9 @@ def _fill_collection_of_types(
         if attr != META_ATTR and isinstance(obj_[attr], dict):
             attr_class = _fill_collection_of_types(obj_[attr],
                                                    None,
-                                                   prefix + attr + '/',
+                                                   '{}{}/'.format(prefix, attr),
                                                    collection_of_types_)
-            collection_of_types_[prefix + attr] = attr_class
+            collection_of_types_['{}{}'.format(prefix, attr)] = attr_class
     return cls_name_
 
 
-- 
2.43.0


From efb00eb4c85dc5a3d7259dcc4697e51f1f525b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 06/96] fix: load verbose dumps that hold nested generic types

---
 jsons/_common_impl.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7e17359..bf2facf 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -7,7 +7,7 @@ throughout `jsons`.
 import builtins
 import warnings
 from importlib import import_module
-from typing import Callable, Optional, Tuple, TypeVar, Any
+from typing import Callable, List, Optional, Tuple, TypeVar, Any
 
 from jsons._cache import cached
 from jsons._compatibility_impl import get_union_params
@@ -93,14 +93,27 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
 
 def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     # If cls_str represents a generic type, try to parse the sub types.
-    origin_str, subtypes_str = cls_str.split('[')
+    origin_str, subtypes_str = cls_str.split('[', 1)
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
     subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
-                for s in subtypes_str.split(',')]
+                for s in _split_subtypes(subtypes_str)]
     return origin[tuple(subtypes)]
 
 
+def _split_subtypes(subtypes_str: str) -> List[str]:
+    # Split on the commas that are not within the brackets of a sub type.
+    result = ['']
+    depth = 0
+    for char in subtypes_str:
+        depth += {'[': 1, ']': -1}.get(char, 0)
+        if char == ',' and depth == 0:
+            result.append('')
+        else:
+            result[-1] += char
+    return result
+
+
 def determine_precedence(
         cls: type,
         cls_from_meta: type,
-- 
2.43.0


From a1fd3e1326b374e8beefe6671c73fdd9da919e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 07/96] fix: do not let inaccurate meta info of a dict override
 the type hint

---
 jsons/serializers/default_object.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 84930a0..db5ae18 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -3,7 +3,7 @@ from datetime import datetime, timezone
 from inspect import isfunction
 from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
 
-from typish import get_type, get_mro
+from typish import get_args, get_type, get_mro
 
 from jsons import get_serializer, announce_class
 from jsons._cache import cached
@@ -316,6 +316,9 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
         cls = get_type(original_obj)
+        if isinstance(original_obj, dict) and not _describes(cls, original_obj):
+            # This type would only conceal the type hint of the attribute.
+            return
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
         else:
@@ -323,6 +326,20 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
         result['-cls'] = cls_name
 
 
+def _describes(cls: type, obj: object) -> bool:
+    # Return whether the (inferred) type cls tells what obj was exactly.
+    args = get_args(cls)
+    if isinstance(obj, dict):
+        return (type(obj) is dict and len(args) == 2
+                and all(_describes(args[0], key) and _describes(args[1], obj[key])
+                        for key in obj) and len(obj) > 0)
+    if isinstance(obj, (list, tuple, set)):
+        args = args * len(obj) if len(args) == 1 else args
+        return 0 < len(obj) == len(args) and all(
+            _describes(arg, elem) for arg, elem in zip(args, obj))
+    return cls is type(obj) and obj is not None
+
+
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
-- 
2.43.0


From 131a34045508a208f0632d7c1d09468b96130d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 08/96] fix: load verbose dumps without class info and reject
 invalid meta info

---
 jsons/_common_impl.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index bf2facf..b48e5d3 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -11,7 +11,7 @@ from typing import Callable, List, Optional, Tuple, TypeVar, Any
 
 from jsons._cache import cached
 from jsons._compatibility_impl import get_union_params
-from jsons.exceptions import UnknownClassError
+from jsons.exceptions import DeserializationError, UnknownClassError
 
 NoneType = type(None)
 JSON_KEYS = (str, int, float, bool, NoneType)
@@ -134,9 +134,15 @@ def get_cls_and_meta(
         json_obj: object,
         fork_inst: type) -> Tuple[Optional[type], Optional[dict]]:
     if isinstance(json_obj, dict) and META_ATTR in json_obj:
-        cls_str = json_obj[META_ATTR]['classes']['/']
-        cls = get_cls_from_str(cls_str, json_obj, fork_inst)
-        return cls, json_obj[META_ATTR]
+        meta = json_obj[META_ATTR]
+        try:
+            cls_str = meta.get('classes', {}).get('/', None)
+            cls = (get_cls_from_str(cls_str, json_obj, fork_inst)
+                   if cls_str else None)
+        except (AttributeError, TypeError, ValueError) as err:
+            msg = 'Invalid meta info found: {}'.format(meta)
+            raise DeserializationError(msg, json_obj, None) from err
+        return cls, meta
     return None, None
 
 
-- 
2.43.0


From cad703c9e8dd0d7357272a4239a3e0515d95525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 09/96] fix: dump the minutes of negative UTC offsets correctly

---
 jsons/_datetime_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 575d9a6..2d8d5c2 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -87,7 +87,7 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     """
     offset_s = tdelta.total_seconds()
     offset_h = int(offset_s / 3600)
-    offset_m = int((offset_s / 60) % 60)
+    offset_m = int((abs(offset_s) / 60) % 60)
     offset_t = time(abs(offset_h), abs(offset_m))
     operator = '+' if offset_s > 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
-- 
2.43.0


From 2a4c6f2894d47d3db8cfea40a40ee165be6def8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 10/96] fix: dump years before 1000 with four digits

---
 jsons/_datetime_impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 2d8d5c2..f5359f3 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -20,6 +20,8 @@ def to_str(
     offset = get_offset_str(dt, fork_inst)
     if not strip_microseconds and getattr(dt, 'microsecond', None):
         pattern += '.%f'
+    # Not all platforms let %Y pad the year with zeros.
+    pattern = pattern.replace('%Y', '{:04d}'.format(getattr(dt, 'year', 0)))
     return dt.strftime("{}{}".format(pattern, offset))
 
 
-- 
2.43.0


From 8a3fc99d0090057fb01999f3fea766fc93370592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 11/96] fix: load times with microseconds

---
 jsons/deserializers/default_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_time.py b/jsons/deserializers/default_time.py
index 988d1f3..0dd8c21 100644
--- a/jsons/deserializers/default_time.py
+++ b/jsons/deserializers/default_time.py
@@ -13,4 +13,7 @@ def default_time_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.time`` instance.
     """
-    return get_datetime_inst(obj, RFC3339_TIME_PATTERN).time()
+    pattern = RFC3339_TIME_PATTERN
+    if '.' in obj:
+        pattern += '.%f'
+    return get_datetime_inst(obj, pattern).time()
-- 
2.43.0


From 98601d745f98860706f52ee93df2710c90308a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 12/96] fix: dump datetimes without timezone as local times

---
 jsons/_datetime_impl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index f5359f3..0c8e4e5 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -70,8 +70,11 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         fork_inst._warn('The use of datetimes without timezone is dangerous '
                         'and can lead to undesired results.',
                         'datetime-without-tz')
-        tzone = datetime.now(timezone.utc).astimezone().tzinfo
-        if tzone is timezone.utc or tzone.utc is timezone.utc:
+        try:
+            tzone = obj.astimezone().tzinfo
+        except (OverflowError, ValueError):  # E.g. too close to datetime.max.
+            tzone = datetime.now(timezone.utc).astimezone().tzinfo
+        if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
     if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
-- 
2.43.0


From c9b113e6021b245dbc607f6f73bef8b529e7a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 13/96] fix: do not dump a timezone with an offset as UTC
 because of its name

---
 jsons/_datetime_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 0c8e4e5..62e523a 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -77,7 +77,8 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
-    if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
+    if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
+            or tzone.utcoffset(None)):
         tdelta = tzone.utcoffset(None) or \
                  getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
         offset = _timedelta_offset_str(tdelta)
-- 
2.43.0


From 7adce309a66a8d910ccd6c9293ae36656b1d7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 14/96] fix: match the types of a Union in its own order

---
 jsons/_compatibility_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 2e4bdbd..564f15d 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -49,8 +49,8 @@ def tuple_with_ellipsis(tup: type) -> bool:
     return use_el
 
 
-@cached
 def get_union_params(un: type) -> list:
+    # Do not cache: Unions are equal regardless of the order of their params.
     # Python3.5: Unions have __union_params__
     # Python3.7: Unions have __args__
     return getattr(un, '__union_params__', getattr(un, '__args__', None))
-- 
2.43.0


From 64eddc52d2770391b5403e5f67a782acc6b7d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 15/96] fix: allow empty iterables when using multiple tasks

---
 jsons/_multitasking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index b11ad1e..84935b0 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -18,6 +18,8 @@ def multi_task(
         task_type: type,
         *args,
         **kwargs):
+    if len(obj) == 0:
+        return []
     result = _get_list_to_fill(obj, task_type)
     tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
                                    list_to_fill=result, obj=obj, args=args,
-- 
2.43.0


From 2136f11ab05f00d32847df7250a241e98b2fc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 16/96] fix: report the failure of a task instead of returning
 incomplete results

---
 jsons/_multitasking.py              | 14 ++++++++++++--
 jsons/deserializers/default_list.py |  6 +++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index 84935b0..70bcaa8 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -8,9 +8,16 @@ from typing import List, Callable, Union
 
 from typish import Something
 
+from jsons.exceptions import JsonsError
+
 Subscriptable = Something['__getitem__': Callable[[int], object]]
 
 
+class _Unfilled:
+    # Marks the spots that were not (yet) filled by a task.
+    ...
+
+
 def multi_task(
         func: Callable,
         obj: Subscriptable,
@@ -27,12 +34,15 @@ def multi_task(
     for task in tasks_instances:
         task.join()
 
-    return list(result)
+    result = list(result)
+    if any(elem is _Unfilled for elem in result):
+        raise JsonsError('A task failed to process all of its elements.')
+    return result
 
 
 def _get_list_to_fill(obj: list, task_type: type) -> Union[list, Manager]:
     # Return a list or manager that contains enough spots to fill.
-    result = [0] * len(obj)
+    result = [_Unfilled] * len(obj)
     if issubclass(task_type, Process):
         manager = Manager()
         result = manager.list(result)
diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 6f3a880..cc40ecf 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -41,7 +41,11 @@ def default_list_deserializer(
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        try:
+            result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        except JsonsError:
+            # A task failed, find out what is wrong and warn or raise.
+            result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
     return result
-- 
2.43.0


From 38ac8ee722560e8a51a5e1ae81fa463edeef1c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 17/96] fix: use the given fork when loading with multiple
 tasks

---
 jsons/deserializers/default_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index cc40ecf..8fbac00 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -42,7 +42,8 @@ def default_list_deserializer(
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
         try:
-            result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+            result = multi_task(load, obj, tasks, task_type, cls_,
+                                fork_inst=fork_inst, **kwargs_)
         except JsonsError:
             # A task failed, find out what is wrong and warn or raise.
             result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
-- 
2.43.0


From 99f2747fd52a85da6acff71929208c48715b5d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 18/96] fix: do not use outdated caches after setting
 (de)serializers or validators

---
 jsons/_lizers_impl.py | 4 +++-
 jsons/_validation.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 749a3dc..7f64637 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,7 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -44,6 +44,7 @@ def set_serializer(
         fork_inst._serializers[cls_name.lower()] = func
     else:
         fork_inst._serializers['nonetype'] = func
+    clear()  # Any cached serializers may have become outdated.
 
 
 def set_deserializer(
@@ -80,6 +81,7 @@ def set_deserializer(
         fork_inst._deserializers[cls_name.lower()] = func
     else:
         fork_inst._deserializers['nonetype'] = func
+    clear()  # Any cached deserializers may have become outdated.
 
 
 @cached
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6512e46..11b1cd1 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,7 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,6 +33,7 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+    clear()  # Any cached validators may have become outdated.
 
 
 @cached
-- 
2.43.0


From a33a6e8fba5c5819cae9bf25b1d10c351a76019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 19/96] fix: keep the validators of a fork separate from those
 of its origin

---
 jsons/_fork_impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index 6fd22b1..6a319ea 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -32,6 +32,8 @@ def fork(
     result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._validators = fork_inst._validators.copy()
+    result._classes_validators = fork_inst._classes_validators.copy()
     result._fork_counter = 0
     result._suppress_warnings = fork_inst._suppress_warnings
     result._suppressed_warnings = fork_inst._suppressed_warnings.copy()
-- 
2.43.0


From 0a172ac41031cdc9545adbbfa2f8f32e85c0c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 20/96] fix: keep the other attributes if one attribute fails
 to dump

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index db5ae18..1010df2 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -138,7 +138,7 @@ def _do_serialize(
                                 'attribute.'
                                 .format(attr, get_class_name(cls), err.args[0]),
                                 'attribute-not-serialized')
-                break
+                continue
 
         if make_attributes_public:
             attr_name = attr_name.lstrip('_')
-- 
2.43.0


From c7277ce651edb45095f4537feff84c79eeba11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 21/96] fix: let the last announcement of a class name count

---
 jsons/_extra_impl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/jsons/_extra_impl.py b/jsons/_extra_impl.py
index fa2e038..07594d3 100644
--- a/jsons/_extra_impl.py
+++ b/jsons/_extra_impl.py
@@ -6,7 +6,6 @@ jsons.
 """
 from typing import Optional
 
-from jsons._cache import cached
 from jsons._common_impl import StateHolder, get_class_name
 
 
@@ -35,7 +34,6 @@ def suppress_warning(
     fork_inst._suppressed_warnings |= {code}
 
 
-@cached
 def announce_class(
         cls: type,
         cls_name: Optional[str] = None,
-- 
2.43.0


From 6ac0430a0efffa4cf7d8769146890322ba5308f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 22/96] fix: use the serializers of the fork in a custom dump
 method

---
 jsons/classes/json_serializable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 4e84d70..da9125a 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -52,7 +52,8 @@ class JsonSerializable(StateHolder):
         """
 
         def _wrapper(inst, **kwargs_):
-            return dump(inst, **{**kwargs_, **kwargs})
+            return dump(inst, **{'fork_inst': inst.__class__,
+                                 **kwargs_, **kwargs})
 
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
-- 
2.43.0


From ec5d98201664e17b5afb0a0cce46e80e7b1f5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 23/96] fix: serialize keys of type IntEnum (or any enum that
 is a JSON type)

---
 jsons/serializers/default_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 1c43a40..81db6fb 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Callable, Dict, Optional, Tuple
 
 from jsons._common_impl import JSON_KEYS
@@ -87,4 +88,5 @@ def _store_and_hash(
 
 
 def _is_valid_json_key(key: object) -> bool:
-    return any(issubclass(type(key), json_key) for json_key in JSON_KEYS)
+    return (any(issubclass(type(key), json_key) for json_key in JSON_KEYS)
+            and not isinstance(key, Enum))
-- 
2.43.0


From 2a8858d1789705855eebd59ab0938f4a7197ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 24/96] fix: do not fail on transforming a key without letters

---
 jsons/_key_transformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_key_transformers.py b/jsons/_key_transformers.py
index 9c74ab6..f35d2ba 100644
--- a/jsons/_key_transformers.py
+++ b/jsons/_key_transformers.py
@@ -17,7 +17,7 @@ def camelcase(str_: str) -> str:
     splitted = str_.split('_')
     if len(splitted) > 1:
         str_ = ''.join([x.title() for x in splitted])
-    return str_[0].lower() + str_[1:]
+    return str_[:1].lower() + str_[1:]
 
 
 def snakecase(str_: str) -> str:
@@ -27,7 +27,7 @@ def snakecase(str_: str) -> str:
     :return: a string in snake_case.
     """
     str_ = str_.replace('-', '_')
-    str_ = str_[0].lower() + str_[1:]
+    str_ = str_[:1].lower() + str_[1:]
     return re.sub(r'([a-z])([A-Z])', '\\1_\\2', str_).lower()
 
 
@@ -38,7 +38,7 @@ def pascalcase(str_: str) -> str:
     :return: a string in PascalCase.
     """
     camelcase_str = camelcase(str_)
-    return camelcase_str[0].upper() + camelcase_str[1:]
+    return camelcase_str[:1].upper() + camelcase_str[1:]
 
 
 def lispcase(str_: str) -> str:
-- 
2.43.0


From 9137bd45cc178fab5fd4375bde17a312893a965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 25/96] fix: raise a DeserializationError on bytes that cannot
 be decoded

---
 jsons/_load_impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 724cdf2..2c6a2a6 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -181,7 +181,11 @@ def loadb(
         raise DeserializationError('loadb accepts bytes only, "{}" was given'
                                    .format(type(bytes_)), bytes_, cls)
     jdkwargs = jdkwargs or {}
-    str_ = bytes_.decode(encoding=encoding)
+    try:
+        str_ = bytes_.decode(encoding=encoding)
+    except UnicodeDecodeError as err:
+        raise DeserializationError('Could not decode the given bytes. {}'
+                                   .format(err), bytes_, cls) from err
     return loads(str_, cls, jdkwargs=jdkwargs, *args, **kwargs)
 
 
-- 
2.43.0


From 2d54b0657d49913770d14b089b6dfaa2bfc53633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 26/96] fix: allow the decoration of functions with variadic
 arguments

---
 jsons/decorators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 0a4e987..72095f5 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -139,7 +139,13 @@ def _get_async_wrapper(
 def _get_params_sig(args, func):
     sig = signature(func)
     params = sig.parameters
-    param_names = [param_name for param_name in params]
+    param_names = [param_name for param_name in params
+                   if params[param_name].kind != Parameter.KEYWORD_ONLY]
+    for index, param_name in enumerate(param_names):
+        if params[param_name].kind == Parameter.VAR_POSITIONAL:
+            # All of the remaining args belong to *args.
+            param_names[index:] = [param_name] * len(args)
+            break
     result = [(args[i], params[param_names[i]]) for i in range(len(args))]
     return result
 
-- 
2.43.0


From bdbed46e019759a6e11dc2ac9118d3cdc2786293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 27/96] fix: load or dump the keyword arguments of a decorated
 function as well

---
 jsons/decorators.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 72095f5..33edd26 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -166,6 +166,20 @@ def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
     return new_args
 
 
+def _map_kwargs(kwargs, decorated, fork_inst, mapper, mapper_kwargs):
+    params = signature(decorated).parameters
+    var_keyword = [param for param in params.values()
+                   if param.kind == Parameter.VAR_KEYWORD]
+    new_kwargs = {}
+    for key, arg in kwargs.items():
+        sig = params.get(key) or (var_keyword and var_keyword[0])
+        cls = (sig.annotation
+               if sig and sig.annotation != Parameter.empty else None)
+        new_kwargs[key] = mapper(arg, cls=cls, fork_inst=fork_inst,
+                                 **mapper_kwargs)
+    return new_kwargs
+
+
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
     return_annotation = signature(decorated).return_annotation
     cls = return_annotation if return_annotation != Parameter.empty else None
@@ -175,9 +189,12 @@ def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
 
 def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
     new_args = args
+    new_kwargs = kwargs
     if mapper:
         new_args = _map_args(args, decorated, fork_inst, mapper, mapper_kwargs)
-    result = decorated(*new_args, **kwargs)
+        new_kwargs = _map_kwargs(kwargs, decorated, fork_inst, mapper,
+                                 mapper_kwargs)
+    result = decorated(*new_args, **new_kwargs)
     return result
 
 
-- 
2.43.0


From 331f11a37b9e1235f1567fed55f5f610d69e0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 28/96] fix: dump tuples with a bare tuple type

---
 jsons/_compatibility_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 564f15d..afb8f7a 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -45,7 +45,8 @@ def tuple_with_ellipsis(tup: type) -> bool:
     # Python3.7: Tuples have __args__
     use_el = getattr(tup, '__tuple_use_ellipsis__', None)
     if use_el is None:
-        use_el = tup.__args__[-1] is ...
+        args = getattr(tup, '__args__', None)
+        use_el = bool(args) and args[-1] is ...
     return use_el
 
 
-- 
2.43.0


From 3420a10b4881972f5cad7a0a7df7fa627465c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 29/96] fix: load dicts into parameterized builtin dict types

---
 jsons/deserializers/default_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index cec2d4b..c3438e7 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -1,8 +1,9 @@
 from collections.abc import Mapping
 from typing import Mapping as MappingType
 
-from typish import get_args, get_origin
+from typish import get_args
 
+from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
 
 
@@ -22,6 +23,6 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     dict_ = default_dict_deserializer(obj, cls_, **kwargs)
     result = dict_
     # Strip any generics from cls to allow for an instance check.
-    if not isinstance(result, get_origin(cls)):
+    if not isinstance(result, get_naked_class(cls)):
         result = cls(dict_)
     return result
-- 
2.43.0


From d8fd5e43b727a661e7ab55d35df8a5c44e7d6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 30/96] fix: dump a value of a Union as the type that it is an
 instance of

---
 jsons/serializers/default_union.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_union.py b/jsons/serializers/default_union.py
index f0cddd7..369cbab 100644
--- a/jsons/serializers/default_union.py
+++ b/jsons/serializers/default_union.py
@@ -1,7 +1,7 @@
 from typing import Union
 
 from jsons._common_impl import get_class_name, NoneType
-from jsons._compatibility_impl import get_union_params
+from jsons._compatibility_impl import get_naked_class, get_union_params
 from jsons._dump_impl import dump
 from jsons.exceptions import JsonsError, SerializationError
 
@@ -24,7 +24,9 @@ def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
     if obj is None and NoneType in sub_types:
         return obj
 
-    for sub_type in sub_types:
+    # Prefer types that obj is an instance of over types that obj can merely be
+    # casted to.
+    for sub_type in sorted(sub_types, key=lambda t: not _is_instance(obj, t)):
         try:
             return dump(obj, sub_type, **kwargs)
         except JsonsError:
@@ -35,3 +37,10 @@ def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
         err_msg = ('Could not match the object of type "{}" to any type of '
                    'the Union: {}'.format(type(obj), args_msg))
         raise SerializationError(err_msg)
+
+
+def _is_instance(obj: object, cls: type) -> bool:
+    try:
+        return isinstance(obj, get_naked_class(cls))
+    except TypeError:  # Some types do not support `isinstance` (e.g. Any).
+        return False
-- 
2.43.0


From aa38991d8cc6af0a50741bab0a301a0f86d3b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 31/96] fix: do not mistake a class for a Union because of its
 name

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index b48e5d3..1368a83 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -152,7 +152,7 @@ def can_match_with_none(cls: type):
     if not result:
         cls_name = get_class_name(cls).lower()
         result = (('union' in cls_name or 'optional' in cls_name)
-                  and NoneType in get_union_params(cls))
+                  and NoneType in (get_union_params(cls) or ()))
     return result
 
 
-- 
2.43.0


From dc64ed1062cfd7398cfa3bd11e22669198ae5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 32/96] fix: dump attributes that are named like the methods of
 JsonSerializable

---
 jsons/serializers/default_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 1010df2..ef60d04 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -230,7 +230,8 @@ def _filter_attributes(
         strip_attr: tuple) -> Dict[str, Optional[type]]:
     # Filter the given attributes with the given preferences.
     strip_attr = strip_attr + _ABC_ATTRS
-    excluded_elems = dir(JsonSerializable)
+    excluded_elems = (dir(JsonSerializable)
+                      if issubclass(cls, StateHolder) else ())
     props, other_cls_vars = _get_class_props(cls)
 
     return {attr: type_ for attr, type_ in attributes.items()
@@ -239,7 +240,6 @@ def _filter_attributes(
             and not (strip_properties and attr in props)
             and not (strip_class_variables and attr in other_cls_vars)
             and attr not in strip_attr
-            and attr != 'json'
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
             and attr not in excluded_elems
-- 
2.43.0


From dcfcc95fa6a66c82c6f07757196e62d7b495de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 33/96] fix: do not cast the elements of heterogeneous
 iterables in strict mode

---
 jsons/serializers/default_iterable.py | 10 +++++-----
 jsons/serializers/default_list.py     |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index c765f07..b55f0a6 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -1,8 +1,8 @@
 from collections.abc import Iterable
 from multiprocessing import Process
-from typing import Tuple, Optional
+from typing import List, Tuple, Optional
 
-from typish import get_args, get_type
+from typish import get_args
 
 from jsons._dump_impl import dump
 from jsons._multitasking import multi_task
@@ -75,7 +75,7 @@ def _do_dump(obj_cls_tuple: Tuple[object, type], *args, **kwargs):
 
 def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
     cls_ = cls
-    if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
-        obj_with_only_one_elem = obj.__getitem__(slice(0, 1))
-        cls_ = get_type(obj_with_only_one_elem)
+    if not cls and len({type(elem) for elem in obj}) == 1:
+        # The elements are homogeneous: infer their type from the first one.
+        cls_ = List[type(next(iter(obj)))]
     return cls_
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index fbf6128..9396ac8 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -41,7 +41,7 @@ def default_list_serializer(
     if cls_args:
         inner_type = cls_args[0]
         serializer = get_serializer(inner_type, fork_inst)
-    elif strict:
+    elif strict and len({type(elem) for elem in obj}) == 1:
         inner_type = type(obj[0])
         serializer = get_serializer(inner_type, fork_inst)
 
-- 
2.43.0


From fc63bf3bef2b1c9a98264c3eec0ec464d68a1d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 34/96] fix: dump values that are annotated with Any or object
 as what they are

---
 jsons/serializers/default_object.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index ef60d04..bd775c8 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -1,7 +1,7 @@
 import inspect
 from datetime import datetime, timezone
 from inspect import isfunction
-from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
+from typing import Any, Optional, Callable, Union, MutableSequence, Tuple, Dict
 
 from typish import get_args, get_type, get_mro
 
@@ -10,6 +10,7 @@ from jsons._cache import cached
 from jsons._common_impl import get_class_name, META_ATTR, StateHolder
 from jsons._compatibility_impl import get_type_hints
 from jsons._datetime_impl import to_str
+from jsons._dump_impl import dump
 from jsons.classes import JsonSerializable
 from jsons.classes.verbosity import Verbosity
 from jsons.exceptions import SerializationError
@@ -57,6 +58,14 @@ def default_object_serializer(
     :return: a Python dict holding the values
     of ``obj``.
     """
+    if cls in (Any, object) and type(obj) is not object:
+        # This cls does not tell anything about obj.
+        return dump(obj, None, key_transformer=key_transformer,
+                    strip_nulls=strip_nulls, strip_privates=strip_privates,
+                    strip_properties=strip_properties,
+                    strip_class_variables=strip_class_variables,
+                    strip_attr=strip_attr, verbose=verbose, strict=strict,
+                    fork_inst=fork_inst, **kwargs)
     strip_attr = _normalize_strip_attr(strip_attr)
     if cls and strict:
         attributes = _get_attributes_from_class(
-- 
2.43.0


From ac91464be4160a33ab2a4e179a50994f419d9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 35/96] fix: load values into a NewType of any primitive or
 class

---
 jsons/_load_impl.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 2c6a2a6..e6a8372 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -110,7 +110,8 @@ def _do_load(json_obj: object,
     if deserializer is None:
         raise DeserializationError('No deserializer for type "{}"'.format(cls_name), json_obj, cls)
     try:
-        result = deserializer(json_obj, cls, **kwargs)
+        target_cls = _get_target_cls(cls, deserializer, kwargs['fork_inst'])
+        result = deserializer(json_obj, target_cls, **kwargs)
         validate(result, cls, kwargs['fork_inst'])
     except Exception as err:
         clear()
@@ -125,6 +126,15 @@ def _do_load(json_obj: object,
         return result
 
 
+def _get_target_cls(cls: type, deserializer: callable, fork_inst: type):
+    # A NewType is deserialized into its supertype, unless it has a
+    # deserializer of its own.
+    supertype = getattr(cls, '__supertype__', None)
+    if supertype and get_deserializer(supertype, fork_inst) is deserializer:
+        return supertype
+    return cls
+
+
 def loads(
         str_: str,
         cls: Optional[Type[T]] = None,
-- 
2.43.0


From d7e9159bc35f92459acd8d6beb9231a52eb031a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 36/96] fix: dump timezones of which the type is given or
 hinted

---
 jsons/serializers/default_timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_timezone.py b/jsons/serializers/default_timezone.py
index cd565b1..68b7120 100644
--- a/jsons/serializers/default_timezone.py
+++ b/jsons/serializers/default_timezone.py
@@ -12,7 +12,7 @@ def default_timezone_serializer(obj: timezone, **kwargs) -> dict:
     :return: ``timezone`` as a dict.
     """
     name = obj.tzname(None)
-    offset = dump(obj.utcoffset(None), **kwargs)
+    offset = dump(obj.utcoffset(None), **{**kwargs, 'cls': None})
     return {
         'name': name,
         'offset': offset
-- 
2.43.0


From 65061efc1f0a1aa8157ef6cf4554607a44da9407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 37/96] fix: keep the order of dicts with hashed keys

---
 jsons/deserializers/default_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index ad6e17f..1c785f6 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -39,7 +39,7 @@ def _load_hashed_keys(
     result = obj
     loaded_keys = set()
 
-    stored_keys = set(obj.get('-keys', set()))
+    stored_keys = list(obj.get('-keys', ()))
     if stored_keys:
         # Apparently, there are stored hashed keys, we need to unpack them.
         if len(cls_args) != 2:
-- 
2.43.0


From 9b96dd83e75b4d7e77fc0ad33de6654f2b485ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 38/96] fix: load attributes named after the variadic
 parameters of a class

---
 jsons/deserializers/default_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index cb41e84..8b50e00 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -89,7 +89,11 @@ def _get_value_for_attr(
         attr_getters,
         **kwargs):
     # Find a value for the attribute (with signature sig_key).
-    if obj and sig_key in obj:
+    if sig.kind in (inspect.Parameter.VAR_POSITIONAL,
+                    inspect.Parameter.VAR_KEYWORD):
+        # This argument is either *args or **kwargs.
+        result = None, None
+    elif obj and sig_key in obj:
         # This argument is in obj.
         result = sig_key, _get_value_from_obj(obj, cls, sig, sig_key,
                                               meta_hints, **kwargs)
@@ -100,10 +104,6 @@ def _get_value_for_attr(
     elif sig.default != inspect.Parameter.empty:
         # There is a default value for this argument.
         result = sig_key, sig.default
-    elif sig.kind in (inspect.Parameter.VAR_POSITIONAL,
-                      inspect.Parameter.VAR_KEYWORD):
-        # This argument is either *args or **kwargs.
-        result = None, None
     elif can_match_with_none(cls):
         # It is fine that there is no value.
         result = sig_key, None
-- 
2.43.0


From d7bf2aa6e66e99afca02a25c7d7b83e09924a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 39/96] fix: name the attribute that failed to be dumped,
 whatever its error looks like

---
 jsons/serializers/default_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index bd775c8..995c24e 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -140,12 +140,12 @@ def _do_serialize(
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
             if strict:
-                raise SerializationError(message=err.args[0]) from err
+                raise SerializationError(message=str(err)) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err.args[0]),
+                                .format(attr_name, get_class_name(cls), err),
                                 'attribute-not-serialized')
                 continue
 
-- 
2.43.0


From b5a16703ad2ad6064c864b612b51bd49e4094129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 40/96] fix: call attribute getters of constructor arguments
 once

---
 jsons/deserializers/default_object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 8b50e00..e55304f 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -41,6 +41,11 @@ def default_object_deserializer(
     remaining_attrs = _get_remaining_args(obj, cls, constructor_args,
                                           strict, kwargs['fork_inst'])
     instance = cls(**constructor_args)
+    # The getters of constructor arguments have been dealt with already.
+    kwargs['attr_getters'] = {
+        attr_name: getter
+        for attr_name, getter in (kwargs.get('attr_getters') or {}).items()
+        if attr_name not in constructor_args}
     _set_remaining_attrs(instance, remaining_attrs, **kwargs)
     return instance
 
-- 
2.43.0


From 9b87525f4d584ea389377e3b455a83e070b78b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 41/96] fix: do not strip dataclass fields with defaults and
 slots as class variables

---
 jsons/serializers/default_object.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 995c24e..9c9add4 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -247,7 +247,8 @@ def _filter_attributes(
             if not attr.startswith('__')
             and not (strip_privates and attr.startswith('_'))
             and not (strip_properties and attr in props)
-            and not (strip_class_variables and attr in other_cls_vars)
+            and not (strip_class_variables and attr in other_cls_vars
+                     and not _is_instance_variable(attr, cls))
             and attr not in strip_attr
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
@@ -349,6 +350,16 @@ def _describes(cls: type, obj: object) -> bool:
     return cls is type(obj) and obj is not None
 
 
+def _is_instance_variable(attr: str, cls: type) -> bool:
+    # Return whether the attribute of the class merely is the default of a
+    # dataclass field or the descriptor of a slot.
+    if hasattr(cls, '__dataclass_fields__'):
+        from dataclasses import fields  # Not available in Python 3.5.
+        if attr in [field.name for field in fields(cls)]:
+            return True
+    return inspect.ismemberdescriptor(getattr(cls, attr, None))
+
+
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
-- 
2.43.0


From d87da02d63b2b99fe5349856ffb13f33a201af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 42/96] fix: use the defaults of NamedTuple fields that are not
 in the given dict

---
 jsons/deserializers/default_tuple.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2f51905..e5aaf2c 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -58,11 +58,10 @@ def default_namedtuple_deserializer(
 
     args = []
     for index, field_name in enumerate(cls._fields):
-        if index < len(obj):
-            if is_dict:
-                field = tfm_obj[field_name]
-            else:
-                field = obj[index]
+        if is_dict and field_name in tfm_obj:
+            field = tfm_obj[field_name]
+        elif not is_dict and index < len(obj):
+            field = obj[index]
         else:
             field = cls._field_defaults.get(field_name, None)
 
-- 
2.43.0


From 7387ac814354439ac21ad68d192f2919bbb97bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 43/96] fix: accept null for NamedTuple fields of type None or
 Any

---
 jsons/deserializers/default_tuple.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index e5aaf2c..6677d6a 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,9 +2,8 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import NoneType
-from jsons._compatibility_impl import (get_type_hints, get_union_params,
-                                       tuple_with_ellipsis)
+from jsons._common_impl import can_match_with_none
+from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
 from jsons.exceptions import UnfulfilledArgumentError
 
@@ -75,7 +74,7 @@ def default_namedtuple_deserializer(
 
         if field is None:
             hint = field_types.get(field_name)
-            if NoneType not in (get_union_params(hint) or []):
+            if hint is None or not can_match_with_none(hint):
                 # The value 'None' is not permitted here.
                 msg = ('No value present in {} for argument "{}"'
                        .format(obj, field_name))
-- 
2.43.0


From 8d12ae0da3dbd59c5a3358ca2be96d300985dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 44/96] fix: take the defaults of NamedTuple fields as they are

---
 jsons/deserializers/default_tuple.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 6677d6a..59489c6 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -61,8 +61,12 @@ def default_namedtuple_deserializer(
             field = tfm_obj[field_name]
         elif not is_dict and index < len(obj):
             field = obj[index]
+        elif field_name in cls._field_defaults:
+            # This value is what it should be already.
+            args.append(cls._field_defaults[field_name])
+            continue
         else:
-            field = cls._field_defaults.get(field_name, None)
+            field = None
 
         # _field_types has been deprecated in favor of __annotations__ in Python 3.8
         if hasattr(cls, '__annotations__'):
-- 
2.43.0


From e19583154fc7d2ec5895a794176692aa7b2cf28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 45/96] fix: accept a list of names for strip_attr

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 9c9add4..fd54877 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -174,7 +174,7 @@ def _normalize_strip_attr(strip_attr) -> tuple:
     if (not isinstance(strip_attr, MutableSequence)
             and not isinstance(strip_attr, tuple)):
         strip_attr = (strip_attr,)
-    return strip_attr
+    return tuple(strip_attr)
 
 
 @cached
-- 
2.43.0


From d504250881b79615952cd92f203e2edc0cd9c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 46/96] fix: strictly dump objects as a NewType of their class

---
 jsons/serializers/default_object.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index fd54877..1695374 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -67,6 +67,7 @@ def default_object_serializer(
                     strip_attr=strip_attr, verbose=verbose, strict=strict,
                     fork_inst=fork_inst, **kwargs)
     strip_attr = _normalize_strip_attr(strip_attr)
+    cls = getattr(cls, '__supertype__', cls)  # The class behind a NewType.
     if cls and strict:
         attributes = _get_attributes_from_class(
             cls, strip_privates, strip_properties, strip_class_variables,
-- 
2.43.0


From d89c42ebc423fe2637e7986605ceb91069633b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 47/96] fix: strictly dump attrs classes with private
 attributes

---
 jsons/serializers/default_object.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 1695374..f958787 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -216,7 +216,13 @@ def _get_attributes_and_types(cls: type,
     if '__slots__' in cls.__dict__:
         attributes = {attr: None for attr in cls.__slots__}
     elif hasattr(cls, '__annotations__'):
-        attributes = get_type_hints(cls)
+        attributes = {**get_type_hints(cls)}
+        # attrs names constructor arguments without the leading underscores of
+        # the attribute; these are no attributes themselves.
+        names = [a.name for a in getattr(cls, '__attrs_attrs__', ())]
+        for name in names:
+            if name.lstrip('_') not in names:
+                attributes.pop(name.lstrip('_'), None)
     elif strict:
         hints = get_type_hints(cls.__init__)
         attributes = {k: hints[k] for k in hints if k != 'self'}
-- 
2.43.0


From e5c667b2bcb0db4d7c4454052b27061ace360ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 48/96] fix: transform the keys of the elements of tuples when
 loading

---
 jsons/deserializers/default_tuple.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 59489c6..d2dce4d 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -28,10 +28,11 @@ def default_tuple_deserializer(obj: list,
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
-        list_ = [load(value, tuple_types[i], **kwargs)
+        list_ = [load(value, tuple_types[i], key_transformer=key_transformer, **kwargs)
                  for i, value in enumerate(obj)]
     else:
-        list_ = [load(value, **kwargs) for i, value in enumerate(obj)]
+        list_ = [load(value, key_transformer=key_transformer, **kwargs)
+                 for i, value in enumerate(obj)]
     return tuple(list_)
 
 
-- 
2.43.0


From 7152610041b94c0e0ed1d40123691d96077258b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 49/96] fix: transform the field names of NamedTuples when
 dumping

---
 jsons/serializers/default_tuple.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 5b12961..92ccab8 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -1,4 +1,4 @@
-from typing import Union, Optional, Tuple
+from typing import Callable, Union, Optional, Tuple
 
 from typish import get_args
 
@@ -28,14 +28,23 @@ def default_tuple_serializer(obj: tuple,
     return default_iterable_serializer(obj, cls_, **kwargs)
 
 
-def default_namedtuple_serializer(obj: tuple, **kwargs) -> dict:
+def default_namedtuple_serializer(
+        obj: tuple,
+        *,
+        key_transformer: Optional[Callable[[str], str]] = None,
+        **kwargs) -> dict:
     """
     Serialize the given ``obj`` to a dict of serialized objects.
     :param obj: the named tuple that is to be serialized.
+    :param key_transformer: a function that will be applied to all keys in the
+    resulting dict.
     :param kwargs: any keyword arguments that may be given to the serialization
     process.
     :return: a dict of which all elements are serialized.
     """
-    result = {field_name: dump(getattr(obj, field_name), **kwargs)
+    key_tfr = key_transformer or (lambda key: key)
+    result = {key_tfr(field_name): dump(getattr(obj, field_name),
+                                        key_transformer=key_transformer,
+                                        **kwargs)
               for field_name in obj._fields}
     return result
-- 
2.43.0


From 1bd85106da677b2b7d8523ef69a51869019472aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 50/96] fix: use the meta info of the elements of a verbose
 dump

---
 jsons/_load_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index e6a8372..907e3d4 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -97,6 +97,9 @@ def load(
         '_initial': False,
         '_inferred_cls': cls is not original_cls,
     }
+    if meta_hints:
+        # The meta info of json_obj itself prevails over that of its parent.
+        kwargs_['meta_hints'] = meta_hints
 
     return _do_load(json_obj, deserializer, cls, initial, **kwargs_)
 
-- 
2.43.0


From 10f56eed80a1aa7af846fbbde4d4cb1cd9d7d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 51/96] fix: restore the classes of dict values from a verbose
 dump

---
 jsons/deserializers/default_dict.py | 2 ++
 jsons/serializers/default_dict.py   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1c785f6..9816e21 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -76,6 +76,8 @@ def _deserialize(
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
+        # The type from a verbose dump takes precedence over cls_v.
+        kwargs_['_inferred_cls'] = True
         # In case of cls is something like Dict[<key>, <value>], we need to
         # ensure that the keys in the result are <key>. If the keys were hashed
         # though, they have been loaded already.
diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 81db6fb..4b5f3e2 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -34,6 +34,9 @@ def default_dict_serializer(
     """
     result = dict()
     types = types or dict()
+    # The meta kwarg store_cls is filtered out, because the values of a dict
+    # should have their own -meta attribute.
+    kwargs.pop('_store_cls', None)
     for key in obj:
         obj_ = obj[key]
         cls_ = types.get(key, None)
-- 
2.43.0


From 7a7bf0c6866e536759d869d8b1259df2d2014f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 52/96] fix: restore the classes of tuple elements from a
 verbose dump

---
 jsons/deserializers/default_tuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index d2dce4d..1bd90b0 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -25,6 +25,8 @@ def default_tuple_deserializer(obj: list,
         return default_namedtuple_deserializer(obj, cls, key_transformer=key_transformer, **kwargs)
     cls_args = get_args(cls)
     if cls_args:
+        # The type from a verbose dump takes precedence over the types in cls.
+        kwargs = {**kwargs, '_inferred_cls': True}
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
-- 
2.43.0


From d58a0ef507b762edfd81be2eb87901583c75603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 53/96] fix: do not apply the meta info of an object to the
 attributes of its attributes

---
 jsons/deserializers/default_object.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index e55304f..146a642 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -118,10 +118,12 @@ def _get_value_for_attr(
     return result
 
 
-def _remove_prefix(prefix: str, s: str) -> str:
-    if s.startswith(prefix):
-        return s[len(prefix):] or '/'  # Special case: map the empty string to '/'
-    return s
+def _get_hints_under(cls_key: str, meta_hints: dict) -> dict:
+    # Return the hints for cls_key and everything under it, with cls_key as
+    # their root.
+    return {key[len(cls_key):] or '/': meta_hints[key]
+            for key in meta_hints
+            if key == cls_key or key.startswith(cls_key + '/')}
 
 
 def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
@@ -130,16 +132,12 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
     # or from type hints.
     cls_key = '/{}'.format(sig_key)
     cls_str_from_meta = meta_hints.get(cls_key, None)
-    new_hints = meta_hints
     cls_from_meta = None
     if cls_str_from_meta:
         cls_from_meta = get_cls_from_str(
             cls_str_from_meta, obj, kwargs['fork_inst'])
-        # Rebuild the class hints: cls_key becomes the new root.
-        new_hints = {
-            _remove_prefix(cls_key, key): meta_hints[key]
-            for key in meta_hints
-        }
+    # Rebuild the class hints: cls_key becomes the new root.
+    new_hints = _get_hints_under(cls_key, meta_hints)
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
     value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
-- 
2.43.0


From 3aefd187fff42af1ef2525a3d1b765c6bf95186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 54/96] fix: name the class of NamedTuples in verbose dumps

---
 jsons/serializers/default_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index f958787..7826b03 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -333,6 +333,8 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
         cls = get_type(original_obj)
+        if hasattr(original_obj, '_fields'):
+            cls = type(original_obj)  # A NamedTuple.
         if isinstance(original_obj, dict) and not _describes(cls, original_obj):
             # This type would only conceal the type hint of the attribute.
             return
-- 
2.43.0


From 9017914e5b8f5babefc6d4eca6216d2db3cd82e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 55/96] fix: restore the classes of the fields of NamedTuples
 from a verbose dump

---
 jsons/deserializers/default_tuple.py | 2 ++
 jsons/serializers/default_tuple.py   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 1bd90b0..67ff8b1 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -52,6 +52,8 @@ def default_namedtuple_deserializer(
     :param kwargs: any keyword arguments.
     :return: a deserialized named tuple (i.e. an instance of a class).
     """
+    # The type from a verbose dump takes precedence over the field types.
+    kwargs['_inferred_cls'] = True
     is_dict = isinstance(obj, dict)
     key_tfr = key_transformer or (lambda key: key)
 
diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 92ccab8..3d0c651 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -42,6 +42,9 @@ def default_namedtuple_serializer(
     process.
     :return: a dict of which all elements are serialized.
     """
+    # The meta kwarg store_cls is filtered out, because the fields of a named
+    # tuple should have their own -meta attribute.
+    kwargs.pop('_store_cls', None)
     key_tfr = key_transformer or (lambda key: key)
     result = {key_tfr(field_name): dump(getattr(obj, field_name),
                                         key_transformer=key_transformer,
-- 
2.43.0


From d03c9cce926b8379fd6838f885d5c9ced0eef4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 56/96] fix: do not describe dicts of NamedTuples as dicts of
 tuples in verbose dumps

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 7826b03..5696a06 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -352,7 +352,7 @@ def _describes(cls: type, obj: object) -> bool:
         return (type(obj) is dict and len(args) == 2
                 and all(_describes(args[0], key) and _describes(args[1], obj[key])
                         for key in obj) and len(obj) > 0)
-    if isinstance(obj, (list, tuple, set)):
+    if isinstance(obj, (list, tuple, set)) and not hasattr(obj, '_fields'):
         args = args * len(obj) if len(args) == 1 else args
         return 0 < len(obj) == len(args) and all(
             _describes(arg, elem) for arg, elem in zip(args, obj))
-- 
2.43.0


From 555c22cea4612c05494c24d6d74109a6784d26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 57/96] fix: use the meta info of attributes that are no
 constructor arguments

---
 jsons/deserializers/default_object.py | 30 +++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 146a642..840d7f8 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -126,20 +126,28 @@ def _get_hints_under(cls_key: str, meta_hints: dict) -> dict:
             if key == cls_key or key.startswith(cls_key + '/')}
 
 
-def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
-    # Obtain the value for the attribute with the given signature from the
-    # given obj. Try to obtain the class of this attribute from the meta info
-    # or from type hints.
-    cls_key = '/{}'.format(sig_key)
+def _get_cls_and_hints(obj, cls, attr_name, meta_hints, fork_inst):
+    # Obtain the class of the attribute with the given name from the meta info
+    # or else from its type hint, together with the meta info for that
+    # attribute.
+    cls_key = '/{}'.format(attr_name)
     cls_str_from_meta = meta_hints.get(cls_key, None)
     cls_from_meta = None
     if cls_str_from_meta:
-        cls_from_meta = get_cls_from_str(
-            cls_str_from_meta, obj, kwargs['fork_inst'])
+        cls_from_meta = get_cls_from_str(cls_str_from_meta, obj, fork_inst)
     # Rebuild the class hints: cls_key becomes the new root.
     new_hints = _get_hints_under(cls_key, meta_hints)
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
+    return cls_, new_hints
+
+
+def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
+    # Obtain the value for the attribute with the given signature from the
+    # given obj. Try to obtain the class of this attribute from the meta info
+    # or from type hints.
+    cls_, new_hints = _get_cls_and_hints(obj, cls, sig_key, meta_hints,
+                                         kwargs['fork_inst'])
     value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
     return value
 
@@ -147,12 +155,15 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
 def _set_remaining_attrs(instance,
                          remaining_attrs,
                          attr_getters,
+                         meta_hints,
                          **kwargs):
     # Set any remaining attributes on the newly created instance.
     attr_getters = attr_getters or {}
     for attr_name in remaining_attrs:
         annotations = get_type_hints(instance.__class__)
-        attr_type = annotations.get(attr_name)
+        attr_type, new_hints = _get_cls_and_hints(
+            remaining_attrs, annotations.get(attr_name), attr_name,
+            meta_hints, kwargs['fork_inst'])
 
         if isinstance(remaining_attrs[attr_name], dict) \
                 and '-keys' in remaining_attrs[attr_name] \
@@ -165,7 +176,8 @@ def _set_remaining_attrs(instance,
                             .format(attr_name), 'hashed-keys-without-hint')
         attr_type = attr_type or type(remaining_attrs[attr_name])
 
-        loaded_attr = load(remaining_attrs[attr_name], attr_type, **kwargs)
+        loaded_attr = load(remaining_attrs[attr_name], attr_type,
+                           meta_hints=new_hints, **kwargs)
         try:
             setattr(instance, attr_name, loaded_attr)
         except AttributeError:
-- 
2.43.0


From 01028b90cf57acbf811f67758403f4a6b3b37a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 58/96] fix: a Union with Any (or object) accepts None

---
 jsons/_common_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 1368a83..da12143 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -152,7 +152,8 @@ def can_match_with_none(cls: type):
     if not result:
         cls_name = get_class_name(cls).lower()
         result = (('union' in cls_name or 'optional' in cls_name)
-                  and NoneType in (get_union_params(cls) or ()))
+                  and any(param in (Any, object, NoneType)
+                          for param in (get_union_params(cls) or ())))
     return result
 
 
-- 
2.43.0


From c5fbadf1a09d01eb9d1f9bc2f6b14e45b377b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 59/96] fix: dump subclasses of datetime as datetimes, not as
 dates

---
 jsons/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 128f8f0..3152988 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -276,8 +276,8 @@ __all__ = [
 
 set_serializer(default_tuple_serializer, (tuple, Tuple))
 set_serializer(default_complex_serializer, complex)
-set_serializer(default_datetime_serializer, datetime)
 set_serializer(default_date_serializer, date)
+set_serializer(default_datetime_serializer, datetime)  # must be after date_serializer
 set_serializer(default_time_serializer, time)
 set_serializer(default_timezone_serializer, timezone)
 set_serializer(default_timedelta_serializer, timedelta)
@@ -296,8 +296,8 @@ set_deserializer(default_list_deserializer, (list, List))
 set_deserializer(default_tuple_deserializer, (tuple, Tuple))
 set_deserializer(default_union_deserializer, (Union, Optional))
 set_deserializer(default_defaultdict_deserializer, DefaultDict)
-set_deserializer(default_datetime_deserializer, datetime)
 set_deserializer(default_date_deserializer, date)
+set_deserializer(default_datetime_deserializer, datetime)  # must be after date_deserializer
 set_deserializer(default_time_deserializer, time)
 set_deserializer(default_timezone_deserializer, timezone)
 set_deserializer(default_timedelta_deserializer, timedelta)
-- 
2.43.0


From 848a359146f10ee2865fa3054a44aefde71dd9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 60/96] fix: __all__ holds names only, so that 'from jsons
 import *' works

---
 jsons/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 3152988..9c0b35f 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -315,7 +315,7 @@ set_deserializer(default_path_deserializer, PurePath)
 
 if default_zone_info_serializer and default_zone_info_deserializer:
     from zoneinfo import ZoneInfo
-    __all__.append(default_zone_info_serializer)
-    __all__.append(default_zone_info_deserializer)
+    __all__.append(default_zone_info_serializer.__name__)
+    __all__.append(default_zone_info_deserializer.__name__)
     set_serializer(default_zone_info_serializer, ZoneInfo)
     set_deserializer(default_zone_info_deserializer, ZoneInfo)
-- 
2.43.0


From 59310d161a751aa7c3480648ee9db79cdf673397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 61/96] fix: nested tasks are of the given task_type

---
 jsons/_multitasking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index 70bcaa8..def0e59 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -62,6 +62,8 @@ def _start_tasks(
     tasks_instances = []
     tasks_used = min(tasks, len(obj))
     tasks_left = tasks - tasks_used or 1
+    # Nested tasks must be of the same type.
+    kwargs_ = {**kwargs, 'task_type': task_type}
 
     # Divide the list in parts.
     slice_size = int(len(obj) / tasks_used)
@@ -73,7 +75,7 @@ def _start_tasks(
             end += rest_size
         task = task_type(
             target=_fill,
-            args=(func, list_to_fill, obj, start, end, tasks_left, args, kwargs))
+            args=(func, list_to_fill, obj, start, end, tasks_left, args, kwargs_))
         task.start()
         tasks_instances.append(task)
     return tasks_instances
-- 
2.43.0


From 43125439432d317010bb23e4a2500ed8c41f472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 62/96] fix: decorated private methods get self unconverted

---
 jsons/decorators.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 33edd26..d10a86f 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -154,7 +154,7 @@ def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
     params_sig = _get_params_sig(args, decorated)
     new_args = []
     for arg, sig in params_sig:
-        if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
+        if sig.name in ('self', 'cls') and _has_method(arg, decorated):
             # `decorated` is a method and arg is either `self` or `cls`.
             new_arg = arg
         else:
@@ -166,6 +166,16 @@ def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
     return new_args
 
 
+def _has_method(arg, decorated):
+    name = decorated.__name__
+    qualname = decorated.__qualname__.split('.')
+    if name.startswith('__') and len(qualname) > 1:
+        # The name of a private method is mangled.
+        mangled = '_{}{}'.format(qualname[-2].lstrip('_'), name)
+        return hasattr(arg, name) or hasattr(arg, mangled)
+    return hasattr(arg, name)
+
+
 def _map_kwargs(kwargs, decorated, fork_inst, mapper, mapper_kwargs):
     params = signature(decorated).parameters
     var_keyword = [param for param in params.values()
-- 
2.43.0


From 6f8ac39e14ce9c37f2dda33bd9687a99ec78f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 63/96] fix: decorating a classmethod object raises
 InvalidDecorationError

---
 jsons/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index d10a86f..3adc417 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -209,7 +209,7 @@ def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
 
 
 def _validate_decoration(decorated, fork_inst):
-    if isinstance(decorated, staticmethod):
+    if isinstance(decorated, (staticmethod, classmethod)):
         fork_inst._warn('You cannot decorate a static- or classmethod. '
                         'You can still obtain the desired behavior by '
                         'decorating your method first and then place '
-- 
2.43.0


From bd645fd5885064fad831d5250b026298b7b1b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 64/96] fix: replaced keys of dicts never collide with dumped
 keys

---
 jsons/serializers/default_dict.py | 67 ++++++++++++++++---------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 4b5f3e2..74bddf9 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,5 +1,5 @@
 from enum import Enum
-from typing import Callable, Dict, Optional, Tuple
+from typing import Callable, Dict, Optional
 
 from jsons._common_impl import JSON_KEYS
 from jsons._dump_impl import dump
@@ -37,6 +37,8 @@ def default_dict_serializer(
     # The meta kwarg store_cls is filtered out, because the values of a dict
     # should have their own -meta attribute.
     kwargs.pop('_store_cls', None)
+    dumped_elems = dict()
+    dumped_keys = dict()
     for key in obj:
         obj_ = obj[key]
         cls_ = types.get(key, None)
@@ -48,46 +50,47 @@ def default_dict_serializer(
                            strict=strict,
                            **kwargs)
         if not (strip_nulls and dumped_elem is None):
+            dumped_elems[key] = dumped_elem
+            dumped_keys[key] = key
+            if not _is_valid_json_key(key):
+                # First try to dump the key, that might be enough already.
+                dumped_keys[key] = dump(key,
+                                        key_transformer=key_transformer,
+                                        strip_nulls=strip_nulls,
+                                        strict=strict,
+                                        types=types, **kwargs)
+
+    # The keys that cannot be used to replace a key; in JSON text they are str.
+    taken = {key for key in dumped_keys.values() if _is_valid_json_key(key)}
+    taken |= {str(key) for key in taken}
+    for key, dumped_elem in dumped_elems.items():
+        dumped_key = dumped_keys[key]
+        if not _is_valid_json_key(dumped_key):
             # If key is not a valid json type, use the hash as key and store
             # the original key in a separate section.
-            dict_and_key = _store_and_hash(result, key, taken=obj,
-                                           key_transformer=key_transformer,
-                                           strip_nulls=strip_nulls,
-                                           strict=strict,
-                                           types=types, **kwargs)
-            if dict_and_key:
-                result, key = dict_and_key
+            dumped_key = _store_and_hash(result, key, dumped_key, taken)
 
-            if key_transformer:
-                key = key_transformer(key)
-            result[key] = dumped_elem
+        if key_transformer:
+            dumped_key = key_transformer(dumped_key)
+        result[dumped_key] = dumped_elem
     return result
 
 
 def _store_and_hash(
         obj: dict,
         key: object,
-        taken: dict,
-        **kwargs
-) -> Optional[Tuple[dict, int]]:
-    # Store the given key in the given dict under a special section if that
-    # key is not a valid json key. Return a hash of that key.
-    result = None
-    if not _is_valid_json_key(key):
-        # First try to dump the key, that might be enough already.
-        dumped_key = dump(key, **kwargs)
-        result = obj, dumped_key
-        if not _is_valid_json_key(dumped_key):
-            # Apparently, this was not enough; the key is still not "jsonable".
-            key_hash = hash(key)
-            obj_ = {**obj}
-            obj_.setdefault('-keys', {})
-            while key_hash in obj_['-keys'] or key_hash in taken:
-                # Different keys may share a hash, find one that is free.
-                key_hash += 1
-            obj_['-keys'][key_hash] = dumped_key
-            result = obj_, key_hash
-    return result
+        dumped_key: object,
+        taken: set) -> int:
+    # Store the given dumped key in the given dict under a special section,
+    # because it is not a valid json key. Return a hash of that key.
+    key_hash = hash(key)
+    stored_keys = obj.setdefault('-keys', {})
+    while (key_hash in stored_keys or key_hash in taken
+           or str(key_hash) in taken):
+        # Different keys may share a hash, find one that is free.
+        key_hash += 1
+    stored_keys[key_hash] = dumped_key
+    return key_hash
 
 
 def _is_valid_json_key(key: object) -> bool:
-- 
2.43.0


From 4e0d6ed9d811c431c81dfa7bb76551c6e5720580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 65/96] fix: loaded keys of dicts may equal the numbers that
 replaced them

---
 jsons/deserializers/default_dict.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 9816e21..e24f447 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -47,19 +47,17 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        result = {**obj}
         key_type = cls_args[0]
+        result = {key: obj[key] for key in obj
+                  if key != '-keys' and key not in obj['-keys']}
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-            original_key = result['-keys'][key]
+            original_key = obj['-keys'][key]
             loaded_key = load(original_key, cls=key_type, **kwargs)
 
             # Replace the hashed key by the loaded key entirely.
-            result[loaded_key] = result[key]
+            result[loaded_key] = obj[key]
             loaded_keys.add(loaded_key)
-            del result[key]
-
-        del result['-keys']
     return result, loaded_keys
 
 
-- 
2.43.0


From 34951bdaee0b4fc605f8a72178893b4b6bd03a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 66/96] fix: loaded keys of dicts may equal plain keys that are
 yet to be loaded

---
 jsons/deserializers/default_dict.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index e24f447..827a069 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -33,11 +33,12 @@ def _load_hashed_keys(
         obj: dict,
         cls: type,
         cls_args: tuple,
-        **kwargs) -> Tuple[dict, set]:
-    # Load any hashed keys and return a copy of the given obj if any hashed
-    # keys are unpacked.
+        **kwargs) -> Tuple[dict, dict]:
+    # Load any hashed keys. Return the given obj without its hashed keys and a
+    # dict with the loaded keys and the values (yet to be loaded) that belong
+    # to them.
     result = obj
-    loaded_keys = set()
+    loaded_keys = dict()
 
     stored_keys = list(obj.get('-keys', ()))
     if stored_keys:
@@ -56,8 +57,7 @@ def _load_hashed_keys(
             loaded_key = load(original_key, cls=key_type, **kwargs)
 
             # Replace the hashed key by the loaded key entirely.
-            result[loaded_key] = obj[key]
-            loaded_keys.add(loaded_key)
+            loaded_keys[loaded_key] = obj[key]
     return result, loaded_keys
 
 
@@ -65,7 +65,7 @@ def _deserialize(
         obj: dict,
         cls_args: tuple,
         key_transformer: Callable[[str], str],
-        loaded_keys: set,
+        loaded_keys: dict,
         kwargs: dict) -> dict:
     key_transformer = key_transformer or (lambda key: key)
     key_func = key_transformer
@@ -80,9 +80,13 @@ def _deserialize(
         # ensure that the keys in the result are <key>. If the keys were hashed
         # though, they have been loaded already.
         kwargs_k = {**kwargs, 'cls': cls_k}
-        key_func = lambda key: (key if key in loaded_keys
-                                else load(key_transformer(key), **kwargs_k))
-    return {
+        key_func = lambda key: load(key_transformer(key), **kwargs_k)
+    result = {
         key_func(key): load(obj[key], **kwargs_)
         for key in obj
     }
+    result.update({
+        key: load(loaded_keys[key], **kwargs_)
+        for key in loaded_keys
+    })
+    return result
-- 
2.43.0


From a3243575bf72db8cdc7c474e3149669f706f154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 67/96] fix: typing's cache of generics does not affect how
 collections are loaded and dumped

---
 jsons/deserializers/default_defaultdict.py | 13 ++++++-------
 jsons/deserializers/default_iterable.py    |  8 ++------
 jsons/deserializers/default_mapping.py     |  9 +--------
 jsons/serializers/default_iterable.py      |  4 ++++
 jsons/serializers/default_tuple.py         | 11 ++---------
 5 files changed, 15 insertions(+), 30 deletions(-)

diff --git a/jsons/deserializers/default_defaultdict.py b/jsons/deserializers/default_defaultdict.py
index 2ad860e..f88fa0f 100644
--- a/jsons/deserializers/default_defaultdict.py
+++ b/jsons/deserializers/default_defaultdict.py
@@ -1,9 +1,9 @@
 from collections import defaultdict
-from typing import Optional, Callable, Dict
+from typing import Optional, Callable
 
 from typish import get_args
 
-from jsons._load_impl import load
+from jsons.deserializers.default_dict import default_dict_deserializer
 
 
 def default_defaultdict_deserializer(
@@ -23,10 +23,9 @@ def default_defaultdict_deserializer(
     """
     args = get_args(cls)
     default_factory = None
-    cls_ = Dict
     if args:
-        key, value = get_args(cls)
-        cls_ = Dict[key, value]
-        default_factory = value
-    loaded = load(obj, cls_, key_transformer=key_transformer, **kwargs)
+        _, default_factory = args
+    loaded = default_dict_deserializer(obj, cls,
+                                       key_transformer=key_transformer,
+                                       **kwargs)
     return defaultdict(default_factory, loaded)
diff --git a/jsons/deserializers/default_iterable.py b/jsons/deserializers/default_iterable.py
index 24cc0b5..6ff4363 100644
--- a/jsons/deserializers/default_iterable.py
+++ b/jsons/deserializers/default_iterable.py
@@ -1,5 +1,4 @@
-from collections.abc import Mapping, Iterable
-from typing import Iterable as IterableType
+from collections.abc import Iterable
 
 from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_list import default_list_deserializer
@@ -19,10 +18,7 @@ def default_iterable_deserializer(
     :param kwargs: Any keyword arguments.
     :return: A deserialized ``Iterable`` (e.g. ``set``) instance.
     """
-    cls_ = Mapping
-    if hasattr(cls, '__args__'):
-        cls_ = IterableType[cls.__args__]
-    list_ = default_list_deserializer(obj, cls_, **kwargs)
+    list_ = default_list_deserializer(obj, cls, **kwargs)
     result = list_
     naked_cls = get_naked_class(cls)
     if not isinstance(result, naked_cls):
diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index c3438e7..c7da029 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -1,7 +1,4 @@
 from collections.abc import Mapping
-from typing import Mapping as MappingType
-
-from typish import get_args
 
 from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
@@ -16,11 +13,7 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     :param kwargs: any keyword arguments.
     :return: a deserialized set instance.
     """
-    cls_ = Mapping
-    cls_args = get_args(cls)
-    if cls_args:
-        cls_ = MappingType[cls_args]
-    dict_ = default_dict_deserializer(obj, cls_, **kwargs)
+    dict_ = default_dict_deserializer(obj, cls, **kwargs)
     result = dict_
     # Strip any generics from cls to allow for an instance check.
     if not isinstance(result, get_naked_class(cls)):
diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index b55f0a6..4a3df32 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -4,6 +4,7 @@ from typing import List, Tuple, Optional
 
 from typish import get_args
 
+from jsons._compatibility_impl import tuple_with_ellipsis
 from jsons._dump_impl import dump
 from jsons._multitasking import multi_task
 from jsons.exceptions import SerializationError
@@ -56,6 +57,9 @@ def _get_subclasses(obj: Iterable, cls: type = None) -> Tuple[type, ...]:
         if len(args) == 1:
             # E.g. List[int]
             subclasses = args * len(obj)
+        elif tuple_with_ellipsis(cls):
+            # E.g. Tuple[int, ...]
+            subclasses = args[:1] * len(obj)
         elif len(args) > 1:
             # E.g. Tuple[int, str, str]
             subclasses = args
diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 3d0c651..31c4218 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -1,8 +1,5 @@
-from typing import Callable, Union, Optional, Tuple
+from typing import Callable, Union, Optional
 
-from typish import get_args
-
-from jsons._compatibility_impl import tuple_with_ellipsis
 from jsons._dump_impl import dump
 from jsons.serializers.default_iterable import default_iterable_serializer
 
@@ -21,11 +18,7 @@ def default_tuple_serializer(obj: tuple,
     if hasattr(obj, '_fields'):
         return default_namedtuple_serializer(obj, **kwargs)
 
-    cls_ = cls
-    if cls and tuple_with_ellipsis(cls):
-        cls_ = Tuple[(get_args(cls)[0],) * len(obj)]
-
-    return default_iterable_serializer(obj, cls_, **kwargs)
+    return default_iterable_serializer(obj, cls, **kwargs)
 
 
 def default_namedtuple_serializer(
-- 
2.43.0


From 150913ba0c4dfec639537be3f5fcb5735c03e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 68/96] fix: errors of values of a dict tell the JSON value
 that did not match

---
 jsons/deserializers/default_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 827a069..c20dc0c 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -67,9 +67,9 @@ def _deserialize(
         key_transformer: Callable[[str], str],
         loaded_keys: dict,
         kwargs: dict) -> dict:
+    kwargs_ = {**kwargs, 'key_transformer': key_transformer}
     key_transformer = key_transformer or (lambda key: key)
     key_func = key_transformer
-    kwargs_ = {**kwargs, 'key_transformer': key_transformer}
 
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
-- 
2.43.0


From 1cca8a07509d12d0fe473c35206c47c21f6220c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 69/96] fix: dump a zero UTC offset as +00:00

---
 jsons/_datetime_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 62e523a..19951a0 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -95,7 +95,7 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     offset_h = int(offset_s / 3600)
     offset_m = int((abs(offset_s) / 60) % 60)
     offset_t = time(abs(offset_h), abs(offset_m))
-    operator = '+' if offset_s > 0 else '-'
+    operator = '+' if offset_s >= 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
     return offset
 
-- 
2.43.0


From 766b06341768695a6bad45f5daabac09e3cd5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 70/96] fix: no meta class that conceals the elements of a
 frozenset or deque in a dict attribute

---
 jsons/serializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 5696a06..4233284 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -1,4 +1,5 @@
 import inspect
+from collections import deque
 from datetime import datetime, timezone
 from inspect import isfunction
 from typing import Any, Optional, Callable, Union, MutableSequence, Tuple, Dict
@@ -352,7 +353,8 @@ def _describes(cls: type, obj: object) -> bool:
         return (type(obj) is dict and len(args) == 2
                 and all(_describes(args[0], key) and _describes(args[1], obj[key])
                         for key in obj) and len(obj) > 0)
-    if isinstance(obj, (list, tuple, set)) and not hasattr(obj, '_fields'):
+    if (isinstance(obj, (list, tuple, set, frozenset, deque))
+            and not hasattr(obj, '_fields')):
         args = args * len(obj) if len(args) == 1 else args
         return 0 < len(obj) == len(args) and all(
             _describes(arg, elem) for arg, elem in zip(args, obj))
-- 
2.43.0


From 3943e4d217d07f7a8f32dc98556f02586c1be6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 71/96] fix: load the offset of a timezone with the fork and
 options in use

---
 jsons/deserializers/default_timezone.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_timezone.py b/jsons/deserializers/default_timezone.py
index 213e1c0..b2e81f4 100644
--- a/jsons/deserializers/default_timezone.py
+++ b/jsons/deserializers/default_timezone.py
@@ -10,7 +10,8 @@ def default_timezone_deserializer(obj: dict,
     Deserialize a dict to a timezone instance.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments.
     :return: a ``datetime.timezone`` instance.
     """
-    return timezone(load(obj['offset'], timedelta), obj['name'])
+    offset = load(obj['offset'], timedelta, **kwargs)
+    return timezone(offset, obj['name'])
-- 
2.43.0


From dfce605163519041b90c1237913705d22794c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 72/96] fix: load the parts of a complex number with the fork
 in use

---
 jsons/deserializers/default_complex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_complex.py b/jsons/deserializers/default_complex.py
index ae4a861..06a2612 100644
--- a/jsons/deserializers/default_complex.py
+++ b/jsons/deserializers/default_complex.py
@@ -1,5 +1,6 @@
 from typing import Dict
 
+from jsons._common_impl import StateHolder
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError
 
@@ -11,12 +12,13 @@ def default_complex_deserializer(obj: Dict[str, float],
     Deserialize a dictionary with 'real' and 'imag' keys to a complex number.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments, of which only fork_inst is used.
     :return: an instance of ``complex``.
     """
     try:
         clean_obj = load({'real': obj['real'], 'imag': obj['imag']},
-                         cls=Dict[str, float])
+                         cls=Dict[str, float],
+                         fork_inst=kwargs.get('fork_inst', StateHolder))
         return complex(clean_obj['real'], clean_obj['imag'])
     except KeyError as err:
         raise AttributeError("Cannot deserialize {} to a complex number, "
-- 
2.43.0


From 9644a22e9b5127d3a88aa7f7bec20ed75032f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 73/96] fix: load the parts of a complex number with the
 options in use

---
 jsons/deserializers/default_complex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_complex.py b/jsons/deserializers/default_complex.py
index 06a2612..063203c 100644
--- a/jsons/deserializers/default_complex.py
+++ b/jsons/deserializers/default_complex.py
@@ -1,6 +1,5 @@
 from typing import Dict
 
-from jsons._common_impl import StateHolder
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError
 
@@ -12,13 +11,14 @@ def default_complex_deserializer(obj: Dict[str, float],
     Deserialize a dictionary with 'real' and 'imag' keys to a complex number.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: any keyword arguments, of which only fork_inst is used.
+    :param kwargs: any keyword arguments.
     :return: an instance of ``complex``.
     """
     try:
+        # The keys are fixed, they are not to be transformed.
         clean_obj = load({'real': obj['real'], 'imag': obj['imag']},
-                         cls=Dict[str, float],
-                         fork_inst=kwargs.get('fork_inst', StateHolder))
+                         **{**kwargs, 'cls': Dict[str, float],
+                            'key_transformer': None})
         return complex(clean_obj['real'], clean_obj['imag'])
     except KeyError as err:
         raise AttributeError("Cannot deserialize {} to a complex number, "
-- 
2.43.0


From 907898826ec2d2e837ced7ab1339b4c541ffadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 74/96] fix: unions written as X | Y were unknown, and made the
 equal Optional[X] unknown as well

---
 jsons/_common_impl.py                      | 3 +++
 jsons/deserializers/default_defaultdict.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index da12143..3b8434c 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -72,6 +72,9 @@ def _get_special_cases(cls: type):
     if (hasattr(cls, '__qualname__')
             and cls.__qualname__ == 'NewType.<locals>.new_type'):
         return cls.__name__
+    if type(cls).__name__ == 'UnionType':
+        # Python3.10: X | Y equals Union[X, Y].
+        return 'typing.Union'
 
 
 def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
diff --git a/jsons/deserializers/default_defaultdict.py b/jsons/deserializers/default_defaultdict.py
index f88fa0f..407b844 100644
--- a/jsons/deserializers/default_defaultdict.py
+++ b/jsons/deserializers/default_defaultdict.py
@@ -28,4 +28,6 @@ def default_defaultdict_deserializer(
     loaded = default_dict_deserializer(obj, cls,
                                        key_transformer=key_transformer,
                                        **kwargs)
+    if not callable(default_factory):
+        default_factory = None  # E.g. X | Y.
     return defaultdict(default_factory, loaded)
-- 
2.43.0


From f0fbb4465cd45b5509ea9c1af1a827ec4641b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 75/96] fix: inherited inner classes were dumped as attributes,
 inner classes without source code made the dump fail

---
 jsons/serializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 4233284..87f2263 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -374,8 +374,10 @@ def _is_instance_variable(attr: str, cls: type) -> bool:
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
+    # An inner class may be inherited.
+    outer_names = [elder.__qualname__ for elder in get_mro(cls)]
     return (isinstance(attr_obj, type)
-            and inspect.getsource(attr_obj) in inspect.getsource(cls))
+            and attr_obj.__qualname__.rpartition('.')[0] in outer_names)
 
 
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
-- 
2.43.0


From 133237b020db43f1232c9dec9ff3c840e284f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 76/96] fix: postponed hints of a dataclass that derives from
 one in another module were not resolved

---
 jsons/_compatibility_impl.py          | 17 ++++++++++++++++-
 jsons/deserializers/default_object.py |  4 ++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index afb8f7a..61aa72e 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -83,10 +83,25 @@ def get_type_hints(callable_: callable, fallback_ns=None):
             result = typing.get_type_hints(callable_, globalns=context_dict)
 
     if sys.version_info.minor >= 10 and type(callable_) is type:
-        annotations_from_init = typing.get_type_hints(callable_.__init__)
+        annotations_from_init = {**get_init_hints(callable_)}
         if 'return' in annotations_from_init:
             # Python3.10: 'return' is a key that holds the returning type.
             del annotations_from_init['return']
         result = {**result, **annotations_from_init}
 
     return result
+
+
+@cached
+def get_init_hints(cls: type) -> dict:
+    # Return the type hints of the constructor of cls.
+    try:
+        return get_type_hints(cls.__init__, fallback_ns=cls.__module__)
+    except NameError:
+        # The constructor was generated (e.g. by dataclass) and has postponed
+        # hints that were inherited from a class in another module.
+        namespace = {}
+        for cls_or_elder in reversed(cls.__mro__):
+            module = sys.modules.get(cls_or_elder.__module__)
+            namespace.update(getattr(module, '__dict__', {}))
+        return typing.get_type_hints(cls.__init__, globalns=namespace)
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 840d7f8..0759d7d 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -9,7 +9,7 @@ from jsons._common_impl import (
     determine_precedence,
     can_match_with_none
 )
-from jsons._compatibility_impl import get_type_hints
+from jsons._compatibility_impl import get_init_hints, get_type_hints
 from jsons._load_impl import load
 from jsons.exceptions import SignatureMismatchError, UnfulfilledArgumentError
 
@@ -60,7 +60,7 @@ def _get_constructor_args(
     # every required parameter, we try to get the corresponding value from
     # json_obj.
     signature_parameters = _get_signature(cls)
-    hints = get_type_hints(cls.__init__, fallback_ns=cls.__module__)
+    hints = get_init_hints(cls)
     attr_getters = dict(**(attr_getters or {}))
 
     result = {}
-- 
2.43.0


From 8d120129174f1e6bdfbafc2665501d5eadfbfde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 77/96] fix: a strict dump as an abstract class left out the
 attributes of its constructor

---
 jsons/_compatibility_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 61aa72e..6456e1d 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -82,7 +82,7 @@ def get_type_hints(callable_: callable, fallback_ns=None):
             context_dict = sys.modules[fallback_ns].__dict__
             result = typing.get_type_hints(callable_, globalns=context_dict)
 
-    if sys.version_info.minor >= 10 and type(callable_) is type:
+    if sys.version_info.minor >= 10 and isinstance(callable_, type):
         annotations_from_init = {**get_init_hints(callable_)}
         if 'return' in annotations_from_init:
             # Python3.10: 'return' is a key that holds the returning type.
-- 
2.43.0


From a1a159f105690a7dec95a953155f620f659218ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 78/96] fix: attributes with the hints ClassVar, Final or
 InitVar could not be loaded

---
 jsons/_compatibility_impl.py | 40 ++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 6456e1d..d2f88d9 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -10,6 +10,15 @@ from enum import Enum
 
 from jsons._cache import cached
 
+try:
+    import dataclasses
+except ImportError:  # Python3.5 and Python3.6
+    dataclasses = None
+
+_QUALIFIERS = [getattr(typing, name) for name in ('ClassVar', 'Final')
+               if hasattr(typing, name)]
+_INIT_VAR = getattr(dataclasses, 'InitVar', None)
+
 
 class Flag(Enum):
     """
@@ -89,7 +98,25 @@ def get_type_hints(callable_: callable, fallback_ns=None):
             del annotations_from_init['return']
         result = {**result, **annotations_from_init}
 
-    return result
+    return {name: _strip_qualifier(result[name]) for name in result
+            if not _is_marker(result[name])}
+
+
+def _strip_qualifier(hint):
+    # Return the actual type of a hint such as ClassVar[int]. Return None if
+    # there is no such type.
+    if hint in _QUALIFIERS:
+        return None
+    if getattr(hint, '__origin__', None) in _QUALIFIERS:
+        return hint.__args__[0]
+    if _INIT_VAR and isinstance(hint, _INIT_VAR):
+        return hint.type
+    return hint
+
+
+def _is_marker(hint) -> bool:
+    # Python3.10: KW_ONLY is a hint of something that is no attribute.
+    return hint is not None and hint is getattr(dataclasses, 'KW_ONLY', None)
 
 
 @cached
@@ -97,11 +124,16 @@ def get_init_hints(cls: type) -> dict:
     # Return the type hints of the constructor of cls.
     try:
         return get_type_hints(cls.__init__, fallback_ns=cls.__module__)
-    except NameError:
+    except (NameError, TypeError):
         # The constructor was generated (e.g. by dataclass) and has postponed
-        # hints that were inherited from a class in another module.
+        # hints that were inherited from a class in another module or that are
+        # only valid in the body of a class (e.g. Final).
         namespace = {}
         for cls_or_elder in reversed(cls.__mro__):
             module = sys.modules.get(cls_or_elder.__module__)
             namespace.update(getattr(module, '__dict__', {}))
-        return typing.get_type_hints(cls.__init__, globalns=namespace)
+        constructor = type(cls.__name__, (), {
+            '__annotations__': cls.__init__.__annotations__,
+            '__module__': cls.__module__})
+        hints = typing.get_type_hints(constructor, localns=namespace)
+        return {name: _strip_qualifier(hints[name]) for name in hints}
-- 
2.43.0


From 8225c26c26ca1d8d5c22d861dd3ca33ad20b2d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:41 +0000
Subject: [PATCH 79/96] fix: a strict dump of a dataclass with KW_ONLY or an
 InitVar failed

---
 jsons/serializers/default_object.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 87f2263..feae315 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -224,6 +224,8 @@ def _get_attributes_and_types(cls: type,
         for name in names:
             if name.lstrip('_') not in names:
                 attributes.pop(name.lstrip('_'), None)
+        for name in _get_pseudo_fields(cls):
+            attributes.pop(name, None)
     elif strict:
         hints = get_type_hints(cls.__init__)
         attributes = {k: hints[k] for k in hints if k != 'self'}
@@ -361,13 +363,26 @@ def _describes(cls: type, obj: object) -> bool:
     return cls is type(obj) and obj is not None
 
 
+def _get_dataclass_fields(cls: type) -> list:
+    if not hasattr(cls, '__dataclass_fields__'):
+        return []
+    from dataclasses import fields  # Not available in Python 3.5.
+    return [field.name for field in fields(cls)]
+
+
+def _get_pseudo_fields(cls: type) -> list:
+    # Return the names of the hints in a dataclass that are no attributes of
+    # its instances: those with InitVar, ClassVar or KW_ONLY.
+    fields = _get_dataclass_fields(cls)
+    return [name for name in getattr(cls, '__dataclass_fields__', ())
+            if name not in fields]
+
+
 def _is_instance_variable(attr: str, cls: type) -> bool:
     # Return whether the attribute of the class merely is the default of a
     # dataclass field or the descriptor of a slot.
-    if hasattr(cls, '__dataclass_fields__'):
-        from dataclasses import fields  # Not available in Python 3.5.
-        if attr in [field.name for field in fields(cls)]:
-            return True
+    if attr in _get_dataclass_fields(cls):
+        return True
     return inspect.ismemberdescriptor(getattr(cls, attr, None))
 
 
-- 
2.43.0


From 07fdd34dcb7990fa25f932100ddaa211bc4c9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 80/96] fix: a strict dump of a class with a single slot given
 as text failed

---
 jsons/serializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index feae315..fb8f232 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -215,7 +215,9 @@ def _get_attributes_from_object(
 def _get_attributes_and_types(cls: type,
                               strict: bool) -> Dict[str, Optional[type]]:
     if '__slots__' in cls.__dict__:
-        attributes = {attr: None for attr in cls.__slots__}
+        slots = cls.__slots__
+        slots = (slots,) if isinstance(slots, str) else slots
+        attributes = {attr: None for attr in slots}
     elif hasattr(cls, '__annotations__'):
         attributes = {**get_type_hints(cls)}
         # attrs names constructor arguments without the leading underscores of
-- 
2.43.0


From d74da21d8cdd247d8481d2fc2a8e70130a557f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 81/96] fix: a subclass of list, tuple or defaultdict was
 loaded as its base

---
 jsons/deserializers/default_defaultdict.py | 4 ++++
 jsons/deserializers/default_list.py        | 5 +++++
 jsons/deserializers/default_tuple.py       | 9 ++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_defaultdict.py b/jsons/deserializers/default_defaultdict.py
index 407b844..e88f71e 100644
--- a/jsons/deserializers/default_defaultdict.py
+++ b/jsons/deserializers/default_defaultdict.py
@@ -3,6 +3,7 @@ from typing import Optional, Callable
 
 from typish import get_args
 
+from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
 
 
@@ -30,4 +31,7 @@ def default_defaultdict_deserializer(
                                        **kwargs)
     if not callable(default_factory):
         default_factory = None  # E.g. X | Y.
+    cls_ = get_naked_class(cls)
+    if isinstance(cls_, type) and issubclass(cls_, defaultdict):
+        return cls_(default_factory, loaded)
     return defaultdict(default_factory, loaded)
diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 8fbac00..2987fd3 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -4,6 +4,7 @@ from typing import Type
 from typish import get_args
 
 from jsons._common_impl import StateHolder
+from jsons._compatibility_impl import get_naked_class
 from jsons._load_impl import load
 from jsons._multitasking import multi_task
 from jsons.exceptions import JsonsError, DeserializationError
@@ -49,6 +50,10 @@ def default_list_deserializer(
             result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
+    naked_cls = get_naked_class(cls)
+    if isinstance(naked_cls, type) and issubclass(naked_cls, list):
+        # It may be a subclass of list that is wanted.
+        result = result if naked_cls is list else naked_cls(result)
     return result
 
 
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 67ff8b1..1788143 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -3,7 +3,11 @@ from typing import Callable, Optional, Union
 from typish import get_args
 
 from jsons._common_impl import can_match_with_none
-from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
+from jsons._compatibility_impl import (
+    get_naked_class,
+    get_type_hints,
+    tuple_with_ellipsis
+)
 from jsons._load_impl import load
 from jsons.exceptions import UnfulfilledArgumentError
 
@@ -35,6 +39,9 @@ def default_tuple_deserializer(obj: list,
     else:
         list_ = [load(value, key_transformer=key_transformer, **kwargs)
                  for i, value in enumerate(obj)]
+    naked_cls = get_naked_class(cls)
+    if isinstance(naked_cls, type) and issubclass(naked_cls, tuple):
+        return naked_cls(list_)  # It may be a subclass of tuple.
     return tuple(list_)
 
 
-- 
2.43.0


From 136b3df468d9f352b923b5344faac05014ed463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 82/96] fix: a subclass of str was loaded as a str or even as a
 datetime

---
 jsons/deserializers/default_string.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_string.py b/jsons/deserializers/default_string.py
index b20733e..97ee744 100644
--- a/jsons/deserializers/default_string.py
+++ b/jsons/deserializers/default_string.py
@@ -17,9 +17,10 @@ def default_string_deserializer(obj: str,
     :param kwargs: any keyword arguments.
     :return: the deserialized obj.
     """
-    target_is_str = cls is str and not kwargs.get('_inferred_cls')
+    target_is_str = (isinstance(cls, type) and issubclass(cls, str)
+                     and not kwargs.get('_inferred_cls'))
     if target_is_str:
-        return str(obj)
+        return cls(obj)
     try:
         result = load(obj, datetime, **kwargs)
     except DeserializationError:
-- 
2.43.0


From 32043db9989a45fd18408e87644255ea6325713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 83/96] fix: the dump of an instance of a subclass of str, int
 or float was no JSON type

---
 jsons/serializers/default_dict.py      |  4 +---
 jsons/serializers/default_primitive.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 74bddf9..5b983d9 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,4 +1,3 @@
-from enum import Enum
 from typing import Callable, Dict, Optional
 
 from jsons._common_impl import JSON_KEYS
@@ -94,5 +93,4 @@ def _store_and_hash(
 
 
 def _is_valid_json_key(key: object) -> bool:
-    return (any(issubclass(type(key), json_key) for json_key in JSON_KEYS)
-            and not isinstance(key, Enum))
+    return type(key) in JSON_KEYS
diff --git a/jsons/serializers/default_primitive.py b/jsons/serializers/default_primitive.py
index 93725e1..eae235c 100644
--- a/jsons/serializers/default_primitive.py
+++ b/jsons/serializers/default_primitive.py
@@ -24,7 +24,16 @@ def default_primitive_serializer(obj: object,
         except ValueError as err:
             raise SerializationError('Could not cast "{}" into "{}"'
                                      .format(obj, cls_.__name__)) from err
-    return result
+    return _to_builtin(result)
+
+
+def _to_builtin(obj: object) -> object:
+    # Return obj as a str, int or float if it is of a subclass of these.
+    for type_, to_type in ((str, str.__str__), (int, int.__int__),
+                           (float, float.__float__)):
+        if isinstance(obj, type_) and type(obj) not in (type_, bool):
+            return to_type(obj)
+    return obj
 
 
 def _is_newtype(cls: Any) -> bool:
-- 
2.43.0


From 839d446f257ce6352cafcdce33e93dc838796ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 84/96] fix: a keyword argument with the name of *args or of a
 positional-only parameter was converted to the type of that parameter, not
 that of **kwargs

---
 jsons/decorators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 3adc417..6aa5f7e 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -182,7 +182,11 @@ def _map_kwargs(kwargs, decorated, fork_inst, mapper, mapper_kwargs):
                    if param.kind == Parameter.VAR_KEYWORD]
     new_kwargs = {}
     for key, arg in kwargs.items():
-        sig = params.get(key) or (var_keyword and var_keyword[0])
+        sig = params.get(key)
+        if not sig or sig.kind not in (Parameter.POSITIONAL_OR_KEYWORD,
+                                       Parameter.KEYWORD_ONLY):
+            # There is no parameter that accepts this keyword: it's **kwargs.
+            sig = var_keyword and var_keyword[0]
         cls = (sig.annotation
                if sig and sig.annotation != Parameter.empty else None)
         new_kwargs[key] = mapper(arg, cls=cls, fork_inst=fork_inst,
-- 
2.43.0


From 9fb255355c1ed64955f0dc897cfb535aea2a8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 85/96] fix: annotations that are text (PEP 563) were of no use
 to loaded and dumped

---
 jsons/decorators.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 6aa5f7e..29bf319 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -3,6 +3,7 @@ This module contains decorators that facilitate the `jsons` functions in an
 alternative fashion.
 """
 from inspect import signature, Parameter, isawaitable, iscoroutinefunction
+from typing import get_type_hints
 
 from jsons import JsonSerializable, dump, load, loads, loadb, dumps, dumpb
 from jsons.exceptions import InvalidDecorationError
@@ -136,8 +137,29 @@ def _get_async_wrapper(
     return _async_wrapper
 
 
-def _get_params_sig(args, func):
+def _get_signature(func):
+    # Return the signature of the given function in which any annotation that
+    # is given as text (e.g. due to PEP 563) is replaced by what it refers to.
     sig = signature(func)
+    try:
+        hints = get_type_hints(func)
+    except Exception:
+        # Some name is not known (yet): stick with the annotations as they are.
+        return sig
+
+    def _resolve(annotation, name):
+        if annotation is None or annotation == 'None':
+            return None
+        return hints.get(name, annotation)
+
+    params = [param.replace(annotation=_resolve(param.annotation, param.name))
+              for param in sig.parameters.values()]
+    return sig.replace(parameters=params, return_annotation=_resolve(
+        sig.return_annotation, 'return'))
+
+
+def _get_params_sig(args, func):
+    sig = _get_signature(func)
     params = sig.parameters
     param_names = [param_name for param_name in params
                    if params[param_name].kind != Parameter.KEYWORD_ONLY]
@@ -177,7 +199,7 @@ def _has_method(arg, decorated):
 
 
 def _map_kwargs(kwargs, decorated, fork_inst, mapper, mapper_kwargs):
-    params = signature(decorated).parameters
+    params = _get_signature(decorated).parameters
     var_keyword = [param for param in params.values()
                    if param.kind == Parameter.VAR_KEYWORD]
     new_kwargs = {}
@@ -195,7 +217,7 @@ def _map_kwargs(kwargs, decorated, fork_inst, mapper, mapper_kwargs):
 
 
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
-    return_annotation = signature(decorated).return_annotation
+    return_annotation = _get_signature(decorated).return_annotation
     cls = return_annotation if return_annotation != Parameter.empty else None
     result = mapper(returnvalue, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
     return result
-- 
2.43.0


From dcb2531b2154ea440e163ec546453af69def2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 86/96] fix: a serializer, deserializer or validator was also
 used for other classes with the same name

---
 jsons/_lizers_impl.py | 41 ++++++++++++++++++++++++++++-------------
 jsons/_validation.py  |  7 +++----
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 7f64637..9b6964f 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -7,7 +7,7 @@ deserializers.
 from typing import Optional, Dict, Sequence, Union
 
 from jsons._cache import cached, clear
-from jsons._common_impl import StateHolder, get_class_name
+from jsons._common_impl import StateHolder, get_class_name, NoneType
 from jsons._compatibility_impl import get_naked_class
 
 
@@ -40,10 +40,9 @@ def set_serializer(
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_serializers)
         fork_inst._classes_serializers.insert(index, cls)
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._serializers[cls_name.lower()] = func
+        _store_lizer(func, cls, fork_inst._serializers)
     else:
-        fork_inst._serializers['nonetype'] = func
+        _store_lizer(func, NoneType, fork_inst._serializers)
     clear()  # Any cached serializers may have become outdated.
 
 
@@ -77,10 +76,9 @@ def set_deserializer(
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
         fork_inst._classes_deserializers.insert(index, cls)
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._deserializers[cls_name.lower()] = func
+        _store_lizer(func, cls, fork_inst._deserializers)
     else:
-        fork_inst._deserializers['nonetype'] = func
+        _store_lizer(func, NoneType, fork_inst._deserializers)
     clear()  # Any cached deserializers may have become outdated.
 
 
@@ -114,14 +112,32 @@ def get_deserializer(
     return deserializer
 
 
+def _store_lizer(
+        func: callable,
+        cls: type,
+        lizers: Dict[object, callable]) -> None:
+    cls_name = get_class_name(cls, str.lower, fully_qualified=True)
+    lizers[cls] = func
+    lizers[cls_name] = func  # For the types that have no class of their own.
+
+
+def _get_lizer_by_key(
+        cls: type,
+        lizers: Dict[object, callable]) -> Optional[callable]:
+    if isinstance(cls, type) and not hasattr(cls, '__origin__'):
+        # Some other class may have the same name.
+        return lizers.get(cls, None)
+    cls_name = get_class_name(cls, str.lower, fully_qualified=True)
+    return lizers.get(cls_name, None)
+
+
 def _get_lizer(
         cls: type,
-        lizers: Dict[str, callable],
+        lizers: Dict[object, callable],
         classes_lizers: list,
         fork_inst: type,
         recursive: bool = False) -> callable:
-    cls_name = get_class_name(cls, str.lower, fully_qualified=True)
-    lizer = (lizers.get(cls_name, None)
+    lizer = (_get_lizer_by_key(cls, lizers)
              or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
     if not lizer and not recursive and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
@@ -131,14 +147,13 @@ def _get_lizer(
 
 def _get_lizer_by_parents(
         cls: type,
-        lizers: Dict[str, callable],
+        lizers: Dict[object, callable],
         classes_lizers: list,
         fork_inst: type) -> callable:
     result = None
     parents = _get_parents(cls, classes_lizers)
     if parents:
-        pname = get_class_name(parents[0], str.lower, fully_qualified=True)
-        result = lizers[pname]
+        result = lizers[parents[0]]
     return result
 
 
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 11b1cd1..e8209a7 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -6,8 +6,8 @@ This module contains functionality for validating objects.
 from typing import Union, Sequence, Callable
 
 from jsons._cache import cached, clear
-from jsons._common_impl import StateHolder, get_class_name
-from jsons._lizers_impl import _get_lizer
+from jsons._common_impl import StateHolder
+from jsons._lizers_impl import _get_lizer, _store_lizer
 from jsons.exceptions import ValidationError
 
 
@@ -30,8 +30,7 @@ def set_validator(
         for cls_ in cls:
             set_validator(func, cls=cls_, fork_inst=fork_inst)
     else:
-        cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._validators[cls_name.lower()] = func
+        _store_lizer(func, cls, fork_inst._validators)
         fork_inst._classes_validators.append(cls)
     clear()  # Any cached validators may have become outdated.
 
-- 
2.43.0


From 26ff35dba7f322635acb69d9c1ec7f7a0e60068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 87/96] fix: the documented calls of
 default_datetime_serializer, default_primitive_deserializer and
 default_object_deserializer raised errors

---
 jsons/deserializers/default_object.py    | 3 +++
 jsons/deserializers/default_primitive.py | 2 +-
 jsons/serializers/default_date.py        | 3 ++-
 jsons/serializers/default_datetime.py    | 4 +++-
 jsons/serializers/default_time.py        | 3 ++-
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 0759d7d..e0b3780 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -3,6 +3,7 @@ from typing import Optional, Callable, Tuple
 
 from jsons._cache import cached
 from jsons._common_impl import (
+    StateHolder,
     get_class_name,
     META_ATTR,
     get_cls_from_str,
@@ -35,6 +36,8 @@ def default_object_deserializer(
     deserializers.
     :return: an instance of type ``cls``.
     """
+    # There are no such kwargs if this function is called directly.
+    kwargs = {'meta_hints': {}, 'fork_inst': StateHolder, **kwargs}
     obj, kwargs = _check_and_transform_keys(obj, key_transformer, **kwargs)
     kwargs['strict'] = strict
     constructor_args = _get_constructor_args(obj, cls, **kwargs)
diff --git a/jsons/deserializers/default_primitive.py b/jsons/deserializers/default_primitive.py
index 82c6f23..df56cad 100644
--- a/jsons/deserializers/default_primitive.py
+++ b/jsons/deserializers/default_primitive.py
@@ -14,7 +14,7 @@ def default_primitive_deserializer(obj: object,
     :return: ``obj``.
     """
     result = obj
-    if obj is not None and not isinstance(obj, cls):
+    if cls and obj is not None and not isinstance(obj, cls):
         try:
             result = cls(obj)
         except ValueError as err:
diff --git a/jsons/serializers/default_date.py b/jsons/serializers/default_date.py
index cba32d8..33bfac5 100644
--- a/jsons/serializers/default_date.py
+++ b/jsons/serializers/default_date.py
@@ -1,5 +1,6 @@
 from datetime import date
 
+from jsons._common_impl import StateHolder
 from jsons._datetime_impl import to_str, RFC3339_DATE_PATTERN
 
 
@@ -12,5 +13,5 @@ def default_date_serializer(obj: date, **kwargs) -> str:
     :param kwargs: not used.
     :return: ``date`` as an RFC3339 string.
     """
-    return to_str(obj, False, kwargs['fork_inst'],
+    return to_str(obj, False, kwargs.get('fork_inst', StateHolder),
                   RFC3339_DATE_PATTERN)
diff --git a/jsons/serializers/default_datetime.py b/jsons/serializers/default_datetime.py
index 5f54a5c..c92108b 100644
--- a/jsons/serializers/default_datetime.py
+++ b/jsons/serializers/default_datetime.py
@@ -1,6 +1,7 @@
 from datetime import datetime
 from typing import Optional
 
+from jsons._common_impl import StateHolder
 from jsons._datetime_impl import to_str, RFC3339_DATETIME_PATTERN
 
 
@@ -18,5 +19,6 @@ def default_datetime_serializer(obj: datetime,
     :param kwargs: not used.
     :return: ``datetime`` as an RFC3339 string.
     """
-    return to_str(obj, strip_microseconds, kwargs['fork_inst'],
+    fork_inst = kwargs.get('fork_inst', StateHolder)
+    return to_str(obj, strip_microseconds, fork_inst,
                   RFC3339_DATETIME_PATTERN)
diff --git a/jsons/serializers/default_time.py b/jsons/serializers/default_time.py
index 47f1d95..bf19c12 100644
--- a/jsons/serializers/default_time.py
+++ b/jsons/serializers/default_time.py
@@ -1,5 +1,6 @@
 from datetime import date
 
+from jsons._common_impl import StateHolder
 from jsons._datetime_impl import to_str, RFC3339_TIME_PATTERN
 
 
@@ -11,5 +12,5 @@ def default_time_serializer(obj: date, **kwargs) -> str:
     :param kwargs: not used.
     :return: ``time`` as an RFC3339 string.
     """
-    return to_str(obj, False, kwargs['fork_inst'],
+    return to_str(obj, False, kwargs.get('fork_inst', StateHolder),
                   RFC3339_TIME_PATTERN)
-- 
2.43.0


From a387b2ea42babc92217311394b4db24943d2deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 88/96] fix: the documented jsons.default_namedtuple_serializer
 and -deserializer did not exist

---
 jsons/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 9c0b35f..a6ebad4 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -149,7 +149,10 @@ from jsons.deserializers.default_string import default_string_deserializer
 from jsons.deserializers.default_time import default_time_deserializer
 from jsons.deserializers.default_timedelta import default_timedelta_deserializer
 from jsons.deserializers.default_timezone import default_timezone_deserializer
-from jsons.deserializers.default_tuple import default_tuple_deserializer
+from jsons.deserializers.default_tuple import (
+    default_tuple_deserializer,
+    default_namedtuple_deserializer
+)
 from jsons.deserializers.default_union import default_union_deserializer
 from jsons.deserializers.default_uuid import default_uuid_deserializer
 from jsons.deserializers.default_zone_info import default_zone_info_deserializer
@@ -176,7 +179,10 @@ from jsons.serializers.default_primitive import default_primitive_serializer
 from jsons.serializers.default_time import default_time_serializer
 from jsons.serializers.default_timedelta import default_timedelta_serializer
 from jsons.serializers.default_timezone import default_timezone_serializer
-from jsons.serializers.default_tuple import default_tuple_serializer
+from jsons.serializers.default_tuple import (
+    default_tuple_serializer,
+    default_namedtuple_serializer
+)
 from jsons.serializers.default_union import default_union_serializer
 from jsons.serializers.default_uuid import default_uuid_serializer
 from jsons.serializers.default_zone_info import default_zone_info_serializer
@@ -233,6 +239,7 @@ __all__ = [
 
     # Serializers:
     default_tuple_serializer.__name__,
+    default_namedtuple_serializer.__name__,
     default_dict_serializer.__name__,
     default_iterable_serializer.__name__,
     default_list_serializer.__name__,
@@ -253,6 +260,7 @@ __all__ = [
     # Deserializers:
     default_list_deserializer.__name__,
     default_tuple_deserializer.__name__,
+    default_namedtuple_deserializer.__name__,
     default_union_deserializer.__name__,
     default_dict_deserializer.__name__,
     default_defaultdict_deserializer.__name__,
-- 
2.43.0


From c8ad3e4d44722a0ff01a274c108c5a73f84c9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 89/96] fix: default_namedtuple_serializer used the cls it was
 given for the fields

---
 jsons/serializers/default_tuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 31c4218..51a5814 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -23,12 +23,14 @@ def default_tuple_serializer(obj: tuple,
 
 def default_namedtuple_serializer(
         obj: tuple,
+        cls: Optional[type] = None,
         *,
         key_transformer: Optional[Callable[[str], str]] = None,
         **kwargs) -> dict:
     """
     Serialize the given ``obj`` to a dict of serialized objects.
     :param obj: the named tuple that is to be serialized.
+    :param cls: not used.
     :param key_transformer: a function that will be applied to all keys in the
     resulting dict.
     :param kwargs: any keyword arguments that may be given to the serialization
-- 
2.43.0


From 713b8f01e90f904ea04f67a3cae323ae31581041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 90/96] fix: constructors whose first parameter is not called
 self could not be loaded

---
 jsons/deserializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index e0b3780..a966f57 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -63,12 +63,14 @@ def _get_constructor_args(
     # every required parameter, we try to get the corresponding value from
     # json_obj.
     signature_parameters = _get_signature(cls)
+    # The first parameter is the instance itself, by whatever name.
+    self_name = next(iter(signature_parameters), None)
     hints = get_init_hints(cls)
     attr_getters = dict(**(attr_getters or {}))
 
     result = {}
     for sig_key, sig in signature_parameters.items():
-        if sig_key != 'self':
+        if sig_key != self_name:
             key, value = _get_value_for_attr(obj=obj,
                                              orig_cls=cls,
                                              meta_hints=meta_hints,
-- 
2.43.0


From 5062d4eeebf591e204905aa68ef3866a9029ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:18 +0000
Subject: [PATCH 91/96] fix: constructors with positional-only parameters could
 not be loaded

---
 jsons/deserializers/default_object.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index a966f57..65e193d 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -43,7 +43,7 @@ def default_object_deserializer(
     constructor_args = _get_constructor_args(obj, cls, **kwargs)
     remaining_attrs = _get_remaining_args(obj, cls, constructor_args,
                                           strict, kwargs['fork_inst'])
-    instance = cls(**constructor_args)
+    instance = _create(cls, constructor_args)
     # The getters of constructor arguments have been dealt with already.
     kwargs['attr_getters'] = {
         attr_name: getter
@@ -84,6 +84,18 @@ def _get_constructor_args(
     return result
 
 
+def _create(cls: type, constructor_args: dict) -> object:
+    signature_parameters = _get_signature(cls)
+    # Parameters that are positional-only do not accept keyword arguments.
+    args = [constructor_args[name] for name in constructor_args
+            if (signature_parameters[name].kind
+                == inspect.Parameter.POSITIONAL_ONLY)]
+    kwargs = {name: constructor_args[name] for name in constructor_args
+              if (signature_parameters[name].kind
+                  != inspect.Parameter.POSITIONAL_ONLY)}
+    return cls(*args, **kwargs)
+
+
 @cached
 def _get_signature(cls):
     return inspect.signature(cls.__init__).parameters
-- 
2.43.0


From c413851ca8ba4a7ebbbd928ffda0a51f7dc7f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:20 +0000
Subject: [PATCH 92/96] fix: loaded and dumped hid the signature of what they
 decorate from other decorators

---
 jsons/decorators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 29bf319..f73957c 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -2,6 +2,7 @@
 This module contains decorators that facilitate the `jsons` functions in an
 alternative fashion.
 """
+from functools import wraps
 from inspect import signature, Parameter, isawaitable, iscoroutinefunction
 from typing import get_type_hints
 
@@ -106,6 +107,7 @@ def _get_wrapper(
         fork_inst,
         mapper,
         mapper_kwargs):
+    @wraps(decorated)
     def _wrapper(*args, **kwargs):
         result = _run_decorated(decorated, mapper if parameters else None,
                                 fork_inst, args, kwargs, mapper_kwargs)
@@ -124,6 +126,7 @@ def _get_async_wrapper(
         fork_inst,
         mapper,
         mapper_kwargs):
+    @wraps(decorated)
     async def _async_wrapper(*args, **kwargs):
         result = _run_decorated(decorated, mapper if parameters else None,
                                 fork_inst, args, kwargs, mapper_kwargs)
-- 
2.43.0


From f78588d8f6252f4c9cbb2df36307104a05b50623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:29 +0000
Subject: [PATCH 93/96] fix: do not recurse forever into a union that is named
 by -meta

---
 jsons/deserializers/default_union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/deserializers/default_union.py b/jsons/deserializers/default_union.py
index a499e5a..9c4b029 100644
--- a/jsons/deserializers/default_union.py
+++ b/jsons/deserializers/default_union.py
@@ -17,6 +17,9 @@ def default_union_deserializer(obj: object, cls: Union, **kwargs) -> object:
     :return: An object of the first type of the Union that could be
     deserialized successfully.
     """
+    # The types of the union are no inferred types: any meta info that led to
+    # this union must not lead to it again.
+    kwargs = {**kwargs, '_inferred_cls': False}
     for sub_type in get_union_params(cls):
         try:
             return load(obj, sub_type, **kwargs)
-- 
2.43.0


From 7650a5984b59941c9db48cf32d6847b75252a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:41 +0000
Subject: [PATCH 94/96] fix: report names in -meta that are no types as jsons
 errors

---
 jsons/_common_impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 3b8434c..e2850d7 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -79,7 +79,7 @@ def _get_special_cases(cls: type):
 
 def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     cls = getattr(builtins, cls_str, None)
-    if cls:
+    if isinstance(cls, type):
         return cls
     if '[' in cls_str and ']' in cls_str:
         return _get_generic_cls_from_str(cls_str, source, fork_inst)
@@ -89,7 +89,8 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
-    except (ImportError, AttributeError, ValueError):
+        hash(cls)  # Whatever is not hashable can not be a type.
+    except (ImportError, AttributeError, TypeError, ValueError):
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
-- 
2.43.0


From 937f724bc9c59442d4d3e40b91538686234b9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:17 +0000
Subject: [PATCH 95/96] fix: load hashed keys of a verbose dump as their own
 class

---
 jsons/deserializers/default_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index c20dc0c..12f9597 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -48,13 +48,14 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        key_type = cls_args[0]
+        # The type from a verbose dump takes precedence over the key type.
+        kwargs_ = {**kwargs, 'cls': cls_args[0], '_inferred_cls': True}
         result = {key: obj[key] for key in obj
                   if key != '-keys' and key not in obj['-keys']}
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
             original_key = obj['-keys'][key]
-            loaded_key = load(original_key, cls=key_type, **kwargs)
+            loaded_key = load(original_key, **kwargs_)
 
             # Replace the hashed key by the loaded key entirely.
             loaded_keys[loaded_key] = obj[key]
-- 
2.43.0


From 49bbc9155d5ca34d4a2840ae498d4804e1a5bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:06 +0000
Subject: [PATCH 96/96] fix: decorated functions raised an IndexError if given
 too many arguments

---
 jsons/decorators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index f73957c..d28de09 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -171,7 +171,9 @@ def _get_params_sig(args, func):
             # All of the remaining args belong to *args.
             param_names[index:] = [param_name] * len(args)
             break
-    result = [(args[i], params[param_names[i]]) for i in range(len(args))]
+    # If there are too many args, then it is up to func to complain about it.
+    result = [(arg, params[param_name])
+              for arg, param_name in zip(args, param_names)]
     return result
 
 
@@ -188,7 +190,7 @@ def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
                              **mapper_kwargs)
 
         new_args.append(new_arg)
-    return new_args
+    return [*new_args, *args[len(new_args):]]
 
 
 def _has_method(arg, decorated):
-- 
2.43.0

