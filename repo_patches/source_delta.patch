From cd1f6f320d31af60ddc8c72c714e5c55f88315a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 01/52] fix: honour on_ref_error when the slot signature was
 checked

---
 src/psygnal/_signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 86573de..5e27dd6 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1085,7 +1085,8 @@ class SignalInstance:
             )
             self._raise_connection_error(slot, extra)
 
-        return None if isinstance(slot_sig, str) else slot_sig, maxargs, True
+        is_qt = isinstance(slot_sig, str)
+        return None if is_qt else slot_sig, maxargs, is_qt
 
     def _raise_connection_error(self, slot: Callable, extra: str = "") -> NoReturn:
         name = getattr(slot, "__name__", str(slot))
-- 
2.43.0


From 3aefe6e8e0a2cbf54eb1934f50e95d41ddeb93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 02/52] fix: nested or excluding group blocks restore each
 member's own state

---
 src/psygnal/_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index a2f6ba8..868370f 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -159,9 +159,10 @@ class SignalRelay(SignalInstance):
         """Block this signal and all emitters from emitting."""
         super().block()
         for name, sig in self._signals.items():
+            # keep the state from before the first block, until we unblock
+            self._sig_was_blocked.setdefault(name, sig._is_blocked)
             if name in exclude or sig in exclude:
                 continue
-            self._sig_was_blocked[name] = sig._is_blocked
             sig.block()
 
     def unblock(self) -> None:
-- 
2.43.0


From 5c587ee0ba26c3decedb000a97677f485cd7419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 03/52] fix: group disconnect(missing_ok=False) accepts a slot
 connected to the group

---
 src/psygnal/_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 868370f..3dd1ae1 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -203,7 +203,9 @@ class SignalRelay(SignalInstance):
             If `slot` is not connected and `missing_ok` is False.
         """
         for sig in self._signals.values():
-            sig.disconnect(slot, missing_ok)
+            if slot is not None and slot in sig:
+                missing_ok = True
+            sig.disconnect(slot)
         super().disconnect(slot, missing_ok)
 
 
-- 
2.43.0


From 28f0643679b24c33e412aa5eada33c8544a8a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 04/52] fix: a paused group relay queues the emissions of its
 members

---
 src/psygnal/_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 3dd1ae1..58bae39 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -97,6 +97,9 @@ class SignalRelay(SignalInstance):
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
             info = EmissionInfo(emitter, args)
+            if self._is_paused:
+                self._args_queue.append((info,))
+                return
             self._run_emit_loop((info,))
 
     def connect_direct(
-- 
2.43.0


From 795559f49d9d48451ded82b9f955215b4ba4d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 05/52] fix: resume() never replays an emission twice or
 delivers while paused again

---
 src/psygnal/_signal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 5e27dd6..0f2ab5d 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1410,24 +1410,24 @@ class SignalInstance:
         # EventedModel.update, it may be undefined (as seen in tests)
         if not getattr(self, "_args_queue", None):
             return
+        # callbacks may raise, or pause and emit again: start over with a fresh queue
+        args_queue, self._args_queue = self._args_queue, []
         if len(self._slots) == 0:
-            self._args_queue.clear()
             return
 
         if reducer is not None:
             if len(inspect.signature(reducer).parameters) == 1:
-                args = cast("ReducerOneArg", reducer)(self._args_queue)
+                args = cast("ReducerOneArg", reducer)(args_queue)
             else:
                 reducer = cast("ReducerTwoArgs", reducer)
                 if initial is _NULL:
-                    args = reduce(reducer, self._args_queue)
+                    args = reduce(reducer, args_queue)
                 else:
-                    args = reduce(reducer, self._args_queue, initial)
+                    args = reduce(reducer, args_queue, initial)
             self._run_emit_loop(args)
         else:
-            for args in self._args_queue:
+            for args in args_queue:
                 self._run_emit_loop(args)
-        self._args_queue.clear()
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From 031a9fdfde79d1f536db3a635880da73ef7498ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 06/52] fix: keep a signal's description when it is copied or
 pickled

---
 src/psygnal/_signal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 0f2ab5d..1001e78 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1468,6 +1468,7 @@ class SignalInstance:
         attrs = (
             "_signature",
             "_name",
+            "_description",
             "_is_blocked",
             "_is_paused",
             "_args_queue",
-- 
2.43.0


From 21b2f982536882724b809807d65c75555a752fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 07/52] fix: a pickled StrongFunction keeps its priority and
 description

---
 src/psygnal/_weak_callback.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index aa23330..1ac7e00 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -363,7 +363,19 @@ class StrongFunction(WeakCallback):
         return self._f
 
     def __getstate__(self) -> dict[str, Any]:
-        atr = ("_key", "_max_args", "_alive", "_on_ref_error", "_f", "_args", "_kwargs")
+        atr = (
+            "_key",
+            "_obj_module",
+            "_obj_qualname",
+            "_object_repr",
+            "_max_args",
+            "_alive",
+            "_on_ref_error",
+            "priority",
+            "_f",
+            "_args",
+            "_kwargs",
+        )
         return {k: getattr(self, k) for k in atr}
 
     def __setstate__(self, state: dict) -> None:
-- 
2.43.0


From a9184b549ebf51c5b17d605978c54a4d3f8dc5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 08/52] fix: EventedList[int] returns the item itself even when
 it is a list

---
 src/psygnal/containers/_evented_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e72a647..ab582e5 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -151,7 +151,7 @@ class EventedList(MutableSequence[_T]):
     def __getitem__(self, key: Index) -> _T | Self:
         """Return self[key]."""
         result = self._data[key]
-        return self.__newlike__(result) if isinstance(result, list) else result
+        return self.__newlike__(result) if isinstance(key, slice) else result
 
     @overload
     def __setitem__(self, key: int, value: _T) -> None: ...
-- 
2.43.0


From bd61df98d69ff0350213676931ea95c4eae1c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 09/52] fix: deleting an out of range index of an EventedList
 never deletes another item

---
 src/psygnal/containers/_evented_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index ab582e5..86bba1b 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -189,7 +189,10 @@ class EventedList(MutableSequence[_T]):
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
         if isinstance(key, int):
-            yield (self, key if key >= 0 else key + len(self))
+            index = key if key >= 0 else key + len(self)
+            if not 0 <= index < len(self):
+                raise IndexError("list assignment index out of range")
+            yield (self, index)
         elif isinstance(key, slice):
             yield from ((self, i) for i in range(*key.indices(len(self))))
         else:
-- 
2.43.0


From 2292d020b4361c57eaf449541fad7657e7c1f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 10/52] fix: EventedList.move and move_multiple accept negative
 source indices

---
 src/psygnal/containers/_evented_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 86bba1b..7af8efa 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -277,6 +277,8 @@ class EventedList(MutableSequence[_T]):
         Both indices refer to the list prior to any object removal
         (pre-move space).
         """
+        if src_index < 0:
+            src_index += len(self)
         if dest_index < 0:
             dest_index += len(self) + 1
         if dest_index in (src_index, src_index + 1):
@@ -368,7 +370,7 @@ class EventedList(MutableSequence[_T]):
             if isinstance(idx, slice):
                 to_move.extend(list(range(*idx.indices(len(self)))))
             elif isinstance(idx, int):
-                to_move.append(idx)
+                to_move.append(idx if idx >= 0 else idx + len(self))
             else:
                 raise TypeError(
                     "Can only move integer or slice indices"
-- 
2.43.0


From 168da4b334ff36722268b18d37d58f2518b59f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 11/52] fix: EventedList child events follow item assignment

---
 src/psygnal/containers/_evented_list.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 7af8efa..b9993a4 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -175,6 +175,12 @@ class EventedList(MutableSequence[_T]):
             value = self._pre_insert(cast("_T", value))
             self._data[key] = value
 
+        if self._child_events:
+            is_slice = isinstance(key, slice)
+            for child in old if is_slice else (old,):
+                self._disconnect_child_emitters(child)
+            for child in value if is_slice else (value,):
+                self._connect_child_emitters(child)
         self.events.changed.emit(key, old, value)
 
     def __delitem__(self, key: Index) -> None:
-- 
2.43.0


From e4ff5d951ecd621e77bcc201560ae76550beeca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 12/52] fix: EventedList.inserted carries the item that was
 actually inserted

---
 src/psygnal/containers/_evented_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index b9993a4..5bafc8d 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -139,8 +139,8 @@ class EventedList(MutableSequence[_T]):
         _value = self._pre_insert(value)
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
-        self.events.inserted.emit(index, value)
-        self._post_insert(value)
+        self.events.inserted.emit(index, _value)
+        self._post_insert(_value)
 
     @overload
     def __getitem__(self, key: int) -> _T: ...
-- 
2.43.0


From f792e488ae1e9b29d0baf0abcaf3078118cf3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 13/52] fix: set operations accept self, iterators, repeated
 items and no arguments

---
 src/psygnal/containers/_evented_set.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 2c841c8..e01e76f 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -126,7 +126,7 @@ class _BaseMutableSet(MutableSet[_T]):
 
     def difference_update(self, *s: Iterable[_T]) -> None:
         """Remove all elements of another set from this set."""
-        for i in chain(*s):
+        for i in tuple(chain(*s)):
             self.discard(i)
 
     def intersection(self, *s: Iterable[_T]) -> Self:
@@ -134,12 +134,12 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in both sets.)
         """
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         return self.__class__(i for i in self if i in other)
 
     def intersection_update(self, *s: Iterable[_T]) -> None:
         """Update this set with the intersection of itself and another."""
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         for i in tuple(self):
             if i not in other:
                 self.discard(i)
@@ -157,7 +157,10 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in exactly one of the sets.)
         """
-        a = chain((i for i in __s if i not in self), (i for i in self if i not in __s))
+        other = dict.fromkeys(__s)
+        a = chain(
+            (i for i in other if i not in self), (i for i in self if i not in other)
+        )
         return self.__class__(a)
 
     def symmetric_difference_update(self, __s: Iterable[_T]) -> None:
@@ -166,7 +169,7 @@ class _BaseMutableSet(MutableSet[_T]):
         This will remove any items in this set that are also in `other`, and
         add any items in others that are not present in this set.
         """
-        for i in __s:
+        for i in tuple(dict.fromkeys(__s)):
             self.discard(i) if i in self else self.add(i)
 
     def union(self, *s: Iterable[_T]) -> Self:
-- 
2.43.0


From 8a9eb148906545941b0341be3d4dd5d488e7b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 14/52] fix: selection may be assigned from an iterator

---
 src/psygnal/containers/_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 7650a16..1fa1a26 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -181,5 +181,6 @@ class Selectable(Container[_S]):
     @selection.setter
     def selection(self, new_selection: Iterable[_S]) -> None:  # pragma: no cover
         """Set selection, without deleting selection model object."""
+        new_selection = tuple(new_selection)  # may be an iterator
         self._selection.intersection_update(new_selection)
         self._selection.update(new_selection)
-- 
2.43.0


From beca7f2d93e7f8d00ed36e06e18c92a4ba8d1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 15/52] fix: a replaced item of a SelectableEventedList does
 not stay selected

---
 src/psygnal/containers/_selectable_evented_list.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index bebe8da..cf0a44d 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -47,10 +47,16 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self._activate_on_insert: bool = True
         super().__init__(data=data, hashable=hashable, child_events=child_events)
         self.events.removed.connect(self._on_item_removed)
+        self.events.changed.connect(self._on_item_changed)
 
     def _on_item_removed(self, idx: int, obj: Any) -> None:
         self.selection.discard(obj)
 
+    def _on_item_changed(self, idx: Any, old: Any, new: Any) -> None:
+        for obj in old if isinstance(idx, slice) else (old,):
+            if obj not in self:
+                self.selection.discard(obj)
+
     def insert(self, index: int, value: _T) -> None:
         """Insert item(s) into the list and update the selection."""
         super().insert(index, value)
-- 
2.43.0


From ee8a3454c0f58607f0931c0a20259ef2f37440fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 16/52] fix: select_next works after the current item was
 removed from the list

---
 src/psygnal/containers/_selectable_evented_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index cf0a44d..db0b9ee 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -89,7 +89,7 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         """
         if len(self) == 0:
             return
-        elif not self.selection:
+        elif not self.selection or self.selection._current not in self:
             idx = -1 if step > 0 else 0
         else:
             idx = self.index(self.selection._current) + step
-- 
2.43.0


From b734abc2a351f9bbbadf327ef89351afa6981f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 17/52] fix: two SignalGroupDescriptors on one class do not
 share their groups

---
 src/psygnal/_group_descriptor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 557c543..086658e 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -508,10 +508,6 @@ class SignalGroupDescriptor:
     ```
     """
 
-    # map of id(obj) -> SignalGroup
-    # cached here in case the object isn't modifiable
-    _instance_map: ClassVar[dict[int, SignalGroup]] = {}
-
     def __init__(
         self,
         *,
@@ -551,6 +547,9 @@ class SignalGroupDescriptor:
         self._signal_aliases = signal_aliases
 
         self._signal_groups: dict[int, type[SignalGroup]] = {}
+        # map of id(obj) -> SignalGroup
+        # cached here in case the object isn't modifiable
+        self._instance_map: dict[int, SignalGroup] = {}
 
     def __set_name__(self, owner: type, name: str) -> None:
         """Called when this descriptor is added to class `owner` as attribute `name`."""
-- 
2.43.0


From 3ddac2c6d000dd52e31fec76ab5dcfaef0857376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 18/52] fix: never reuse the signal group class of a deleted
 owner class

---
 src/psygnal/_group_descriptor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 086658e..0a6994f 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -623,6 +623,8 @@ class SignalGroupDescriptor:
         type_id = id(owner)
         if type_id not in self._signal_groups:
             self._signal_groups[type_id] = self._create_group(owner)
+            # another class may be given the same id when this one is deleted
+            weakref.finalize(owner, self._signal_groups.pop, type_id, None)
         return self._signal_groups[type_id]
 
     def _create_group(self, owner: type) -> type[SignalGroup]:
-- 
2.43.0


From 4ddf4da0816997dfdc36a414e5eeacac412126aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 19/52] fix: signal aliases of one owner do not leak into a
 shared SignalGroup class

---
 src/psygnal/_group_descriptor.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 0a6994f..249f3bd 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import contextlib
-import copy
 import operator
 import sys
 import warnings
@@ -10,7 +9,6 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
-    ClassVar,
     Literal,
     Optional,
     TypeVar,
@@ -630,11 +628,16 @@ class SignalGroupDescriptor:
     def _create_group(self, owner: type) -> type[SignalGroup]:
         if not self._collect_fields:
             # Do not collect fields from owner class
-            Group = copy.deepcopy(self._signal_group_class)
+            Group = self._signal_group_class
 
-            # Add aliases
+            # Add aliases, in a subclass (other owners may use the same group class)
             if isinstance(self._signal_aliases, dict):
-                Group._psygnal_aliases.update(self._signal_aliases)
+                Group = type(
+                    Group.__name__,
+                    (Group,),
+                    {"__module__": Group.__module__, "__doc__": Group.__doc__},
+                    signal_aliases=self._signal_aliases,
+                )
 
         else:
             # Collect fields and create SignalGroup subclass
-- 
2.43.0


From 2b9061d377563b590964d901631b465823fd48f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 20/52] fix: EventedModel subclasses have signals for inherited
 property setters

---
 src/psygnal/_evented_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 31f90f9..06e1d5f 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -279,8 +279,10 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
-                    recursion = emission_map.get(key, default_strategy)
-                    signals[key] = Signal(object, reemission=recursion)
+            # each of them, inherited or not, has a signal
+            for key in cls.__property_setters__:
+                recursion = emission_map.get(key, default_strategy)
+                signals[key] = Signal(object, reemission=recursion)
         else:
             for b in cls.__bases__:
                 with suppress(AttributeError):
-- 
2.43.0


From 93e642f3d6f09c7178247803a6210fa66bd64a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 21/52] fix: EventedModel emits the value that was actually
 stored

---
 src/psygnal/_evented_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 06e1d5f..a2f5a2f 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -633,8 +633,9 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             return self._super_setattr_(name, value)
         old_value = getattr(self, name, object())
         self._super_setattr_(name, value)
-        if not _check_field_equality(type(self), name, value, old_value):
-            getattr(self._events, name)(value)
+        new_value = getattr(self, name)  # may have been converted by pydantic
+        if not _check_field_equality(type(self), name, new_value, old_value):
+            getattr(self._events, name)(new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From 877a8f5da6a72088e4f7b5a8a245aaea83a85700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 22/52] fix: EventedModel fields may be named like an attribute
 of SignalGroup

---
 src/psygnal/_evented_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index a2f5a2f..84d2ca2 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -591,7 +591,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
             for name, new_value in to_emit:
-                getattr(self._events, name)(new_value)
+                self._events[name](new_value)
 
     def __setattr__(self, name: str, value: Any) -> None:
         if (
@@ -635,7 +635,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         self._super_setattr_(name, value)
         new_value = getattr(self, name)  # may have been converted by pydantic
         if not _check_field_equality(type(self), name, new_value, old_value):
-            getattr(self._events, name)(new_value)
+            self._events[name](new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From b4a77a87eb199673fc62f5725b5371beb841088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 23/52] fix: the current emitter is tracked separately for each
 thread

---
 src/psygnal/_signal.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 1001e78..c756f63 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -219,6 +219,10 @@ class ReemissionMode:
         return VALID_REEMISSION
 
 
+# holds the currently emitting SignalInstance, separately for each thread
+_in_this_thread = threading.local()
+
+
 class Signal:
     """Declares a signal emitter on a class.
 
@@ -290,8 +294,6 @@ class Signal:
 
     # _signature: Signature  # callback signature for this signal
 
-    _current_emitter: ClassVar[SignalInstance | None] = None
-
     def __init__(
         self,
         *types: type[Any] | Signature,
@@ -409,11 +411,12 @@ class Signal:
     @contextmanager
     def _emitting(cls, emitter: SignalInstance) -> Iterator[None]:
         """Context that sets the sender on a receiver object while emitting a signal."""
-        previous, cls._current_emitter = cls._current_emitter, emitter
+        previous = getattr(_in_this_thread, "emitter", None)
+        _in_this_thread.emitter = emitter
         try:
             yield
         finally:
-            cls._current_emitter = previous
+            _in_this_thread.emitter = previous
 
     @classmethod
     def current_emitter(cls) -> SignalInstance | None:
@@ -431,7 +434,7 @@ class Signal:
             source = Signal.current_emitter()
         ```
         """
-        return cls._current_emitter
+        return getattr(_in_this_thread, "emitter", None)
 
     @classmethod
     def sender(cls) -> Any:
@@ -439,7 +442,7 @@ class Signal:
 
         This will typically be used in a callback.
         """
-        return getattr(cls._current_emitter, "instance", None)
+        return getattr(cls.current_emitter(), "instance", None)
 
 
 _empty_signature = Signature()
-- 
2.43.0


From 3c608745e941fb73a7b06ca6b2f211021df976b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 24/52] fix: two threads first queueing for a thread never lose
 a callback

---
 src/psygnal/_queue.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 4093a8c..f3985c6 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from collections import defaultdict
 from queue import Queue
 from threading import Thread, current_thread, main_thread
 from typing import Any, Callable, ClassVar, Literal
@@ -26,9 +25,7 @@ class QueuedCallback(WeakCallback):
         thread will be used.
     """
 
-    _GLOBAL_QUEUE: ClassVar[defaultdict[Thread, Queue[CbArgsTuple]]] = defaultdict(
-        Queue
-    )
+    _GLOBAL_QUEUE: ClassVar[dict[Thread, Queue[CbArgsTuple]]] = {}
 
     def __init__(
         self,
@@ -60,12 +57,17 @@ class QueuedCallback(WeakCallback):
         if current_thread() is self._cbthread:
             self._wrapped.cb(args)
         else:
-            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._wrapped.cb, args))
+            _thread_queue(self._cbthread).put((self._wrapped.cb, args))
 
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
 
 
+def _thread_queue(thread: Thread) -> Queue[CbArgsTuple]:
+    # setdefault is atomic: two threads never get different queues for `thread`
+    return QueuedCallback._GLOBAL_QUEUE.setdefault(thread, Queue())
+
+
 def emit_queued(thread: Thread | None = None) -> None:
     """Trigger emissions of all callbacks queued in the current thread.
 
@@ -84,7 +86,7 @@ def emit_queued(thread: Thread | None = None) -> None:
         raises an exception.
     """
     _thread = current_thread() if thread is None else thread
-    queue = QueuedCallback._GLOBAL_QUEUE[_thread]
+    queue = _thread_queue(_thread)
 
     while not queue.empty():
         cb, args = queue.get()
-- 
2.43.0


From 0d0abd5e6d47502e9ba8e1324515144693e995b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 25/52] fix: two threads draining the same callback queue never
 block each other

---
 src/psygnal/_queue.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index f3985c6..a08f617 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from queue import Queue
+from queue import Empty, Queue
 from threading import Thread, current_thread, main_thread
 from typing import Any, Callable, ClassVar, Literal
 
@@ -88,8 +88,11 @@ def emit_queued(thread: Thread | None = None) -> None:
     _thread = current_thread() if thread is None else thread
     queue = _thread_queue(_thread)
 
-    while not queue.empty():
-        cb, args = queue.get()
+    while True:
+        try:
+            cb, args = queue.get_nowait()
+        except Empty:  # another thread may have taken the last one
+            return
         try:
             cb(args)
         except Exception as e:  # pragma: no cover
-- 
2.43.0


From 466af8a5239c6caf212a36ba799efa0f61ba6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 26/52] fix: a dead builtin-method callback never calls a
 method of None, and keeps bound arguments when dereferenced

---
 src/psygnal/_weak_callback.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 1ac7e00..49728da 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -508,7 +508,9 @@ class WeakBuiltin(WeakCallback):
         return f"{obj.__class__.__qualname__}.{self._func_name}"
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
-        func = getattr(self._obj_ref(), self._func_name, None)
+        obj = self._obj_ref()
+        # (don't look up the method on `None`: it has some of the same methods)
+        func = None if obj is None else getattr(obj, self._func_name, None)
         if func is None:
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is None:
@@ -516,8 +518,12 @@ class WeakBuiltin(WeakCallback):
         else:
             func(*self._args, *args[: self._max_args])
 
-    def dereference(self) -> MethodWrapperType | BuiltinMethodType | None:
-        return getattr(self._obj_ref(), self._func_name, None)
+    def dereference(self) -> MethodWrapperType | BuiltinMethodType | partial | None:
+        obj = self._obj_ref()
+        func = None if obj is None else getattr(obj, self._func_name, None)
+        if func is not None and self._args:
+            return partial(func, *self._args)
+        return cast("MethodWrapperType | BuiltinMethodType | None", func)
 
 
 class WeakSetattr(WeakCallback):
-- 
2.43.0


From bab24a3c3513ace46961e2f1ddb36c310cec3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 27/52] fix: a callback connected to a thread has a repr

---
 src/psygnal/_queue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index a08f617..c2e4704 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -36,6 +36,9 @@ class QueuedCallback(WeakCallback):
         # keeping the wrapped key allows this slot to be disconnected
         # regardless of whether it was connected with type='queue' or 'direct' ...
         self._key: str = wrapped._key
+        self._obj_module: str = getattr(wrapped, "_obj_module", "")
+        self._obj_qualname: str = getattr(wrapped, "_obj_qualname", "")
+        self._object_repr: str = getattr(wrapped, "_object_repr", "")
         self._max_args: int | None = wrapped._max_args
         self._alive: bool = wrapped._alive
         self._on_ref_error = wrapped._on_ref_error
-- 
2.43.0


From cf5e50546dbeb13762bc42b242ad972ff1416030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 28/52] fix: EmitLoopError never depends on the truth value of
 the signal's owner

---
 src/psygnal/_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index f87d88e..cd97c7b 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -39,7 +39,7 @@ class EmitLoopError(Exception):
         # grab the signal name or repr
         if signal is None:  # pragma: no cover
             sig_name: str = ""
-        elif instance := signal.instance:
+        elif (instance := signal.instance) is not None:
             inst_class = instance.__class__
             mod = getattr(inst_class, "__module__", "")
             if mod:
-- 
2.43.0


From 8175e6e73fb8fd15c6b99b93dc08edeba1cc147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 29/52] fix: weak_callback honours strong_func for curried
 functions

---
 src/psygnal/_weak_callback.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 49728da..08c27b6 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -181,6 +181,7 @@ def weak_callback(
             *args,
             max_args=max_args,
             finalize=finalize,
+            strong_func=strong_func,
             on_ref_error=on_ref_error,
             priority=priority,
         )
-- 
2.43.0


From 6b16f01dac54b106a23cfc1736db3f6467b20c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 30/52] fix: a copied or pickled group relay keeps listening to
 its signals

---
 src/psygnal/_group.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 58bae39..dc9d35b 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -211,6 +211,22 @@ class SignalRelay(SignalInstance):
             sig.disconnect(slot)
         super().disconnect(slot, missing_ok)
 
+    def __getstate__(self) -> dict:
+        """Return dict of current state, for pickle."""
+        state = super().__getstate__()
+        state["_signals"] = dict(self._signals)
+        state["_sig_was_blocked"] = dict(self._sig_was_blocked)
+        return state
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore state from pickle."""
+        state = {**state, "_signals": MappingProxyType(state["_signals"])}
+        super().__setstate__(state)
+        # our connections to the signals are weak, and therefore not pickled
+        # (they can't be restored when a signal in the group was pickled on its own)
+        if self._slots and all(hasattr(s, "_lock") for s in self._signals.values()):
+            self._connect_relay()
+
 
 # NOTE
 # To developers. Avoid adding public names to this class, as it is intended to be
-- 
2.43.0


From 4a8a0d745ad0f0aee833b87bc7d76301061e22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 31/52] fix: deep-copying an object binds the copied signal
 group to the copy

---
 src/psygnal/_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index dc9d35b..9483942 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -451,7 +451,9 @@ class SignalGroup:
         # This really isn't a deep copy. Should we also copy connections?
         # a working deepcopy is important for pydantic support, but in most cases
         # it will be a group without any signals connected
-        return type(self)(instance=self._psygnal_relay.instance)
+        instance = self._psygnal_relay.instance
+        # bind to the copy of our owner, if it is what is being copied
+        return type(self)(instance=memo.get(id(instance), instance))
 
     # The rest are passthrough methods to the SignalRelay.
     # The full signatures are here to make mypy and IDEs happy.
-- 
2.43.0


From 3abd9c17646ccfe1159d85efdeec9441286dcab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 32/52] fix: a refused active item leaves the selection as it
 was

---
 src/psygnal/containers/_selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 1fa1a26..e0f3a4d 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -108,6 +108,8 @@ class Selection(EventedOrderedSet[_T]):
         """
         if value == self._active:
             return
+        if value is not None:
+            self._pre_add_hook(value)  # raises if value cannot be selected
         self._active = value
         self.clear() if value is None else self.select_only(value)
         self._current = value
-- 
2.43.0


From 52d5b49ea268c08758936338cba1667f6ad0dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 33/52] fix: reversing a SelectableEventedList one item at a
 time keeps the selection

---
 src/psygnal/containers/_selectable_evented_list.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index db0b9ee..2a5745b 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -45,6 +45,7 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         child_events: bool = False,
     ):
         self._activate_on_insert: bool = True
+        self._reversing: bool = False
         super().__init__(data=data, hashable=hashable, child_events=child_events)
         self.events.removed.connect(self._on_item_removed)
         self.events.changed.connect(self._on_item_changed)
@@ -53,6 +54,8 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self.selection.discard(obj)
 
     def _on_item_changed(self, idx: Any, old: Any, new: Any) -> None:
+        if self._reversing:
+            return  # items only trade places, none of them leaves the list
         for obj in old if isinstance(idx, slice) else (old,):
             if obj not in self:
                 self.selection.discard(obj)
@@ -63,6 +66,14 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         if self._activate_on_insert:
             self.selection.active = value
 
+    def reverse(self, *, emit_individual_events: bool = False) -> None:
+        """Reverse list *IN PLACE*, keeping the selection."""
+        self._reversing = True
+        try:
+            super().reverse(emit_individual_events=emit_individual_events)
+        finally:
+            self._reversing = False
+
     def select_all(self) -> None:
         """Select all items in the list."""
         self.selection.update(self)
-- 
2.43.0


From 10d2b7aa17f2c776536aa43216f075402876af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 34/52] fix: child events of an EventedList tell the index of
 the item itself, not of an equal one

---
 src/psygnal/containers/_evented_list.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 5bafc8d..97a57e8 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -421,10 +421,13 @@ class EventedList(MutableSequence[_T]):
         if emitter is None:
             return  # pragma: no cover
         obj = emitter.instance
-        try:
-            idx = self.index(obj)
-        except ValueError:  # pragma: no cover
-            return
+        # the object itself, before an item that is only equal to it
+        idx = next((i for i, item in enumerate(self._data) if item is obj), None)
+        if idx is None:
+            try:
+                idx = self.index(obj)
+            except ValueError:  # pragma: no cover
+                return
 
         if (
             args
-- 
2.43.0


From 2bc1ae42acd03c3bcccea59f0a5223922ea19ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 35/52] fix: a Signal named differently than its attribute gave
 a new instance on every access

---
 src/psygnal/_signal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index c756f63..4869d44 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -304,6 +304,7 @@ class Signal:
         reemission: ReemissionVal = DEFAULT_REEMISSION,
     ) -> None:
         self._name = name
+        self._attr_name: str | None = None
         self.description = description
         self._check_nargs_on_connect = check_nargs_on_connect
         self._check_types_on_connect = check_types_on_connect
@@ -329,6 +330,7 @@ class Signal:
 
     def __set_name__(self, owner: type[Any], name: str) -> None:
         """Set name of signal when declared as a class attribute on `owner`."""
+        self._attr_name = name
         if self._name is None:
             self._name = name
 
@@ -373,7 +375,9 @@ class Signal:
             # first, try to assign it to instance.name ... this essentially breaks the
             # descriptor, (i.e. __get__ will never again be called for this instance)
             # (note, this is the same mechanism used in the `cached_property` decorator)
-            setattr(instance, cast("str", self._name), signal_instance)
+            # (the attribute may be named differently than the signal itself)
+            attr_name = self._attr_name or cast("str", self._name)
+            setattr(instance, attr_name, signal_instance)
         except AttributeError:
             # if that fails, which may happen in slotted classes, then we fall back to
             # our internal cache
-- 
2.43.0


From 1a6c1325b0a32f92114f7f34ce882ec0d82ee393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 36/52] fix: copies of a signal shared its collected emissions,
 and copies made during an emission never emitted

---
 src/psygnal/_signal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 4869d44..30be61a 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1478,16 +1478,14 @@ class SignalInstance:
             "_description",
             "_is_blocked",
             "_is_paused",
-            "_args_queue",
             "_check_nargs_on_connect",
             "_check_types_on_connect",
-            "_emit_queue",
             "_priority_in_use",
             "_reemission",
-            "_max_recursion_depth",
-            "_recursion_depth",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
+        # a copy collects its own emissions
+        dd["_args_queue"] = list(self._args_queue)
         dd["_instance"] = self._instance()
         dd["_slots"] = [x for x in self._slots if isinstance(x, StrongFunction)]
         if len(self._slots) > len(dd["_slots"]):
@@ -1508,6 +1506,10 @@ class SignalInstance:
             else:
                 setattr(self, k, v)
         self._lock = threading.RLock()
+        # an emission running on the original is not running on the copy
+        self._emit_queue = deque()
+        self._recursion_depth = 0
+        self._max_recursion_depth = 0
         if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
             self._run_emit_loop_inner = self._run_emit_loop_queued
         elif self._reemission == ReemissionMode.LATEST:  # pragma: no cover
-- 
2.43.0


From 5d469ecc758b98782054ef0fa3d8beb4dee1cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 37/52] fix: a latest-only signal kept the last emitted
 arguments and callback alive

---
 src/psygnal/_signal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 30be61a..e879609 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1316,13 +1316,12 @@ class SignalInstance:
             caller.cb(args)
 
     def _run_emit_loop_latest_only(self) -> None:
-        self._args = args = self._emit_queue.popleft()
+        args = self._emit_queue.popleft()
         for caller in self._slots:
             if self._recursion_depth < self._max_recursion_depth:
                 # we've already entered a deeper emit loop
                 # we should drop the remaining slots in this round and return
                 break
-            self._caller = caller
             caller.cb(args)
 
     def _run_emit_loop_queued(self) -> None:
-- 
2.43.0


From a6a1ae5741a331d2704fe6a0de74d1ddfdb24fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 38/52] fix: methods of one object sharing a name counted as
 the same callback

---
 src/psygnal/_weak_callback.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 08c27b6..fe2f2c8 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -290,6 +290,10 @@ class WeakCallback(Generic[_R]):
             module = getattr(owner_cls, "__module__", None) or ""
             method_name = getattr(obj, "__name__", None) or ""
             obj_name = f"{type_name}.{method_name}"
+            # methods may share a name (lambdas, undecorated wrappers, ...)
+            func = getattr(obj, "__func__", None)
+            if func is not None:
+                obj_name += f"[{hex(id(func))}]"
         else:
             obj_id = id(obj)
             module = getattr(obj, "__module__", None) or ""
-- 
2.43.0


From a9e88fd407f568b61c272b2e6d329df726844300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 39/52] fix: a function connected to an unpickled signal was
 not found in another process

---
 src/psygnal/_weak_callback.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index fe2f2c8..73b0059 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -386,6 +386,8 @@ class StrongFunction(WeakCallback):
     def __setstate__(self, state: dict) -> None:
         for k, v in state.items():
             setattr(self, k, v)
+        # the key has the id of the function, which differs from process to process
+        self._key = WeakCallback.object_key(self._f)
 
 
 class WeakFunction(WeakCallback):
-- 
2.43.0


From f375824b0568b84577331e1148e408f57d0a41ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 40/52] fix: a new item could not be set through an evented
 proxy

---
 src/psygnal/containers/_evented_proxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index fcd5f57..87b2539 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -90,7 +90,10 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        before = self[key]
+        try:
+            before = self[key]
+        except LookupError:  # e.g. a new key in a dict
+            before = _UNSET
         super().__setitem__(key, value)
         if before is not (after := self[key]):
             self.events.item_set(key, after)
-- 
2.43.0


From 0d1451957705f277ea5464415fd4942d457d2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 41/52] fix: a throttled call made right after cancel() was
 lost

---
 src/psygnal/_throttler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 470b9b7..1fa3896 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -63,6 +63,8 @@ class _ThrottlerBase(Generic[P]):
         """Cancel any pending calls."""
         self._has_pending = False
         self._timer.cancel()
+        # the cancelled timer stays alive for a moment, but must not delay the next call
+        self._timer = Timer(self._interval, self._call_if_has_pending)
 
     def flush(self) -> None:
         """Force a call if there is one pending."""
-- 
2.43.0


From ad14f5235510b8a04390163c64d25cee2e75f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 42/52] fix: monitor_events took a method with one argument for
 an old style logger

---
 src/psygnal/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e37a290..1187741 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 from contextlib import contextmanager, suppress
 from functools import partial
 from pathlib import Path
+from types import MethodType
 from typing import TYPE_CHECKING, Any, Callable
 from warnings import warn
 
@@ -44,7 +45,9 @@ def monitor_events(
         by default False
     """
     code = getattr(logger, "__code__", None)
-    _old_api = bool(code and code.co_argcount > 1)
+    # (the code of a bound method counts `self` as well)
+    _max_argcount = 2 if isinstance(logger, MethodType) else 1
+    _old_api = bool(code and code.co_argcount > _max_argcount)
 
     if obj is None:
         # install the hook globally
-- 
2.43.0


From ca74ff3e7e8d3be9dc082905a3a46c70d2eb951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 43/52] fix: emissions delivered on resume were not reported to
 the global monitor

---
 src/psygnal/_signal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index e879609..98f5d21 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1201,13 +1201,15 @@ class SignalInstance:
             self._args_queue.append(args)
             return
 
+        self._call_debug_hook(args)
+        self._run_emit_loop(args)
+
+    def _call_debug_hook(self, args: tuple[Any, ...]) -> None:
         if SignalInstance._debug_hook is not None:
             from ._group import EmissionInfo
 
             SignalInstance._debug_hook(EmissionInfo(self, args))
 
-        self._run_emit_loop(args)
-
     def emit_fast(self, *args: Any) -> None:
         """Fast emit without any checks.
 
@@ -1430,9 +1432,11 @@ class SignalInstance:
                     args = reduce(reducer, args_queue)
                 else:
                     args = reduce(reducer, args_queue, initial)
+            self._call_debug_hook(args)
             self._run_emit_loop(args)
         else:
             for args in args_queue:
+                self._call_debug_hook(args)
                 self._run_emit_loop(args)
 
     def paused(
-- 
2.43.0


From 7419150f8a1665a10713ee675566da39c39c6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 44/52] fix: inherited fields of a msgspec Struct lost their
 type

---
 src/psygnal/_dataclass_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_dataclass_utils.py b/src/psygnal/_dataclass_utils.py
index 69b039d..ff31189 100644
--- a/src/psygnal/_dataclass_utils.py
+++ b/src/psygnal/_dataclass_utils.py
@@ -183,7 +183,9 @@ def iter_fields(
         return
 
     if is_msgspec_struct(cls):
+        annotations: dict[str, Any] = {}
+        for base in reversed(cls.__mro__):  # fields may be inherited
+            annotations.update(getattr(base, "__annotations__", {}))
         for m_field in cls.__struct_fields__:
-            type_ = cls.__annotations__.get(m_field, None)
-            yield m_field, type_
+            yield m_field, annotations.get(m_field, None)
         return
-- 
2.43.0


From f0cb0fe9d5819396aff808b2f388403bda963a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 45/52] fix: an error whose text could not be taken hid the
 error of a callback

---
 src/psygnal/_exceptions.py | 13 +++++++++++--
 src/psygnal/_signal.py     |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index cd97c7b..981049a 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -55,7 +55,8 @@ class EmitLoopError(Exception):
         if reemission == "queued" and (depth := len(emit_queue) - 1):
             msg += (
                 "\nNOTE: reemission is set to 'queued', and this error occurred "
-                f"at a queue-depth of {depth}.\nEmitting arguments: {emit_queue[-1]})\n"
+                f"at a queue-depth of {depth}.\n"
+                f"Emitting arguments: {_safe_str(emit_queue[-1])})\n"
             )
 
         super().__init__(msg)
@@ -65,7 +66,7 @@ def _build_psygnal_exception_msg(
     sig_name: str, exc: BaseException, recursion_depth: int
 ) -> str:
     msg = f"\n\nWhile emitting signal {sig_name!r}, an error occurred in a callback:"
-    line = f"\n\n  {exc.__class__.__name__}: {exc}"
+    line = f"\n\n  {exc.__class__.__name__}: {_safe_str(exc)}"
     msg += line + "\n  " + "-" * (len(line) - 4)
 
     if recursion_depth:
@@ -108,6 +109,14 @@ def _build_psygnal_exception_msg(
     return msg
 
 
+def _safe_str(obj: object) -> str:
+    """Return `str(obj)`, also when that fails."""
+    try:
+        return str(obj)
+    except Exception:
+        return f"<unprintable {type(obj).__name__} object>"
+
+
 def _fmt_frame(fi: inspect.FrameInfo, with_context: bool = True) -> str:
     msg = f"{fi.filename}:{fi.lineno} in {fi.function}\n"
     if with_context and (code_ctx := fi.code_context):
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 98f5d21..a36a995 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -152,7 +152,7 @@ from typing import (
     overload,
 )
 
-from ._exceptions import EmitLoopError
+from ._exceptions import EmitLoopError, _safe_str
 from ._mypyc import mypyc_attr
 from ._queue import QueuedCallback
 from ._weak_callback import (
@@ -1290,7 +1290,7 @@ class SignalInstance:
             except RecursionError as e:
                 raise RecursionError(
                     f"RecursionError when "
-                    f"emitting signal {self.name!r} with args {args}"
+                    f"emitting signal {self.name!r} with args {_safe_str(args)}"
                 ) from e
             except EmitLoopError as e:
                 raise e
-- 
2.43.0


From 8345563a6275d4c7429d22f3ac0cdc3e5fe90291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 46/52] fix: emit for aliased fields of a class whose base was
 patched without aliases

---
 src/psygnal/_group_descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 249f3bd..c3d19e1 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -655,5 +655,6 @@ class SignalGroupDescriptor:
                 stacklevel=2,
             )
 
-        self._do_patch_setattr(owner, with_aliases=bool(Group._psygnal_aliases))
+        # subclasses inherit the patch, and may have aliases even if this group has none
+        self._do_patch_setattr(owner)
         return Group
-- 
2.43.0


From f10c671c0851c13ecaaa32faf9c966afe4c64648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 47/52] fix: emit from a second group when the base class was
 already patched for another

---
 src/psygnal/_group_descriptor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index c3d19e1..dd9b22e 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -373,8 +373,9 @@ def evented_setattr(
     """
 
     def _inner(super_setattr: SetAttr) -> SetAttr:
-        # don't patch twice
-        if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):
+        # don't patch twice (but a base class may have a group under another name)
+        patched_for = getattr(super_setattr, PATCHED_BY_PSYGNAL, ())
+        if signal_group_name in patched_for:
             return super_setattr
 
         # pick a slightly faster signal lookup if we don't need aliases
@@ -399,7 +400,9 @@ def evented_setattr(
             with _changes_emitted(self, name, signal):
                 super_setattr(self, name, value)
 
-        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, True)
+        setattr(
+            _setattr_and_emit_, PATCHED_BY_PSYGNAL, (*patched_for, signal_group_name)
+        )
         return _setattr_and_emit_
 
     return _inner(super_setattr) if super_setattr else _inner
@@ -560,10 +563,11 @@ class SignalGroupDescriptor:
         """Patch the owner class's __setattr__ method to emit events."""
         if not self._patch_setattr:
             return
-        if getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, False):
-            return
 
         name = self._name
+        if name in getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, ()):
+            return
+
         if not (name and hasattr(owner, name)):  # pragma: no cover
             # this should never happen... but if it does, we'll get errors
             # every time we set an attribute on the class.  So raise now.
-- 
2.43.0


From c32e5080f820b7358ddab54b198015975c379a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 48/52] fix: emit_fast hid a recursion error when the arguments
 could not be printed

---
 src/psygnal/_signal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index a36a995..ae495a4 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1242,7 +1242,7 @@ class SignalInstance:
         if self._recursion_depth >= RECURSION_LIMIT:
             raise RecursionError(
                 f"Psygnal recursion limit ({RECURSION_LIMIT}) reached when emitting "
-                f"signal {self.name!r} with args {args}"
+                f"signal {self.name!r} with args {_safe_str(args)}"
             )
 
         self._recursion_depth += 1
@@ -1251,7 +1251,8 @@ class SignalInstance:
                 caller.cb(args)
         except RecursionError as e:
             raise RecursionError(
-                f"RecursionError when emitting signal {self.name!r} with args {args}"
+                f"RecursionError when emitting signal {self.name!r} "
+                f"with args {_safe_str(args)}"
             ) from e
         except EmitLoopError as e:  # pragma: no cover
             raise e
-- 
2.43.0


From 3abb0a4a52f22a0f09d1f3f73cd1dabc48895305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 49/52] fix: keyword arguments bound around a curried function
 were lost

---
 src/psygnal/_weak_callback.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 73b0059..6f7d3d9 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -176,6 +176,8 @@ def weak_callback(
                 "toolz.curry object found without a '_partial' attribute. This "
                 "version of toolz is not supported. Please open an issue at psygnal."
             )
+        if kwargs:
+            cb_partial = partial(cb_partial, **kwargs)
         return weak_callback(
             cb_partial,
             *args,
-- 
2.43.0


From f9ab2a8b5bf471313f307e6aedea5a6b24ccf5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 50/52] fix: arguments bound to an item or attribute setter
 beyond its key were lost

---
 src/psygnal/_weak_callback.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 6f7d3d9..13aa4cb 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -134,7 +134,12 @@ def weak_callback(
         )
 
     if isinstance(cb, MethodType):
-        if getattr(cb, "__name__", None) == "__setitem__":
+        # (the item setter binds nothing but the key)
+        if (
+            getattr(cb, "__name__", None) == "__setitem__"
+            and len(args) < 2
+            and not kwargs
+        ):
             try:
                 key = args[0]
             except IndexError as e:  # pragma: no cover
@@ -155,7 +160,8 @@ def weak_callback(
                 "MethodWrapperTypes do not support keyword arguments"
             )
 
-        if cb is setattr:
+        # (the attribute setter binds nothing but the object and the name)
+        if cb is setattr and len(args) < 3:
             try:
                 obj, attr = args[:2]
             except IndexError as e:  # pragma: no cover
-- 
2.43.0


From 8f41f8a1c9898d2c02673f60d4b4e54eca136d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 51/52] fix: a callback with bound arguments that could not be
 printed could not be connected

---
 src/psygnal/_weak_callback.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 13aa4cb..f9d6543 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -333,6 +333,14 @@ class WeakCallback(Generic[_R]):
         return f"<{self.__class__.__name__} on {self._object_repr}>"  # pragma: no cover
 
 
+def _add_args_repr(object_repr: str, args: tuple[Any, ...]) -> str:
+    """Add bound `args` to `object_repr`, if they can be shown."""
+    try:
+        return f"{object_repr}{(*args,)!r}".replace(")", " ...)")
+    except Exception:
+        return f"{object_repr}(...)"
+
+
 def _kill_and_finalize(
     wcb: WeakCallback, finalize: Callable[[WeakCallback], Any]
 ) -> Callable[[weakref.ReferenceType], None]:
@@ -363,7 +371,7 @@ class StrongFunction(WeakCallback):
         self._kwargs = kwargs or {}
 
         if args:
-            self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
+            self._object_repr = _add_args_repr(self._object_repr, args)
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         if self._max_args is not None:
@@ -417,7 +425,7 @@ class WeakFunction(WeakCallback):
         self._kwargs = kwargs or {}
 
         if args:
-            self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
+            self._object_repr = _add_args_repr(self._object_repr, args)
 
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         f = self._f()
@@ -463,7 +471,7 @@ class WeakMethod(WeakCallback):
         self._args = args
         self._kwargs = kwargs or {}
         if args:
-            self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
+            self._object_repr = _add_args_repr(self._object_repr, args)
 
     def slot_repr(self) -> str:
         obj = self._obj_ref()
@@ -516,7 +524,7 @@ class WeakBuiltin(WeakCallback):
         self._func_name = obj.__name__
         self._args = args
         if args:
-            self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
+            self._object_repr = _add_args_repr(self._object_repr, args)
 
     def slot_repr(self) -> str:
         obj = self._obj_ref()
-- 
2.43.0


From 937a9a4baec4e75c58a42c43ef7e6f5e8a3ce70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 52/52] fix: a property setter of a model without dependents
 emitted before all fields were assigned

---
 src/psygnal/_evented_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 84d2ca2..fa04591 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -297,7 +297,12 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
             cls, model_config, model_fields
         )
         cls.__signal_group__ = type(f"{name}SignalGroup", (SignalGroup,), signals)
-        if not cls.__field_dependents__ and hasattr(cls, "_setattr_no_dependants"):
+        if (
+            not cls.__field_dependents__
+            and not cls.__property_setters__
+            and hasattr(cls, "_setattr_no_dependants")
+        ):
+            # (a property setter may assign several fields, which emit together)
             cls._setattr_default = cls._setattr_no_dependants
         elif hasattr(cls, "_setattr_with_dependents"):
             cls._setattr_default = cls._setattr_with_dependents
-- 
2.43.0

