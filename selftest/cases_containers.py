L, D, S = "containers/_evented_list.py", "containers/_evented_dict.py", "containers/_evented_set.py"
SEL, SL = "containers/_selection.py", "containers/_selectable_evented_list.py"
E24, E25, E26, E27, E30 = {"C24"}, {"C25"}, {"C26"}, {"C27"}, {"C30"}
INS = """        self.events.inserting.emit(index)
        self._data.insert(index, _value)
        self.events.inserted.emit(index, _value)
"""
DEL = """            parent.events.removing.emit(index)
            parent._pre_remove(index)
            item = parent._data.pop(index)
            self.events.removed.emit(index, item)
"""
IDX = "            index = key if key >= 0 else key + len(self)\n"
MV = """        self.events.moving.emit(src_index, dest_index)
        item = self._data.pop(src_index)
        if dest_index > src_index:
            dest_index -= 1
        self._data.insert(dest_index, item)
        self.events.moved.emit(src_index, dest_index, item)
        self.events.reordered.emit()
"""
MM = """        with self.events.reordered.blocked():
            for src, dest in move_plan:
                self.move(src, dest)

        self.events.reordered.emit()
"""
DSET = """        if key not in self._dict:
            self.events.adding.emit(key)
            super().__setitem__(key, value)
            self.events.added.emit(key, value)
        else:
            old_value = self._dict[key]
            if value is not old_value:
                self.events.changing.emit(key)
                super().__setitem__(key, value)
                self.events.changed.emit(key, old_value, value)
"""
DDEL = """        item = self._dict[key]
        self.events.removing.emit(key)
        super().__delitem__(key)
        self.events.removed.emit(key, item)
"""
CON = """        if self._child_events:
            is_slice = isinstance(key, slice)
            for child in old if is_slice else (old,):
                self._disconnect_child_emitters(child)
            for child in value if is_slice else (value,):
                self._connect_child_emitters(child)
"""
CASES = [
    # C24
    ("li-insert-late", L, [(INS, INS.replace("        self._data.insert(index, _value)\n        self.events.inserted.emit(index, _value)\n", "        self.events.inserted.emit(index, _value)\n        self._data.insert(index, _value)\n"))], E24),
    ("li-insert-noevent", L, [("        self.events.inserted.emit(index, _value)\n", "        if index < len(self._data):\n            self.events.inserted.emit(index, _value)\n")], E24),
    ("li-del-index", L, [(IDX, "            index = key\n")], E24),
    ("li-del-order", L, [("sorted(self._delitem_indices(key), reverse=True)", "self._delitem_indices(key)")], E24),
    ("li-del-late", L, [(DEL, DEL.replace("            item = parent._data.pop(index)\n            self.events.removed.emit(index, item)\n", "            item = parent._data[index]\n            self.events.removed.emit(index, item)\n            parent._data.pop(index)\n"))], E24),
    ("li-del-range", L, [("            if not 0 <= index < len(self):\n                raise IndexError(\"list assignment index out of range\")\n", ""),
                         ("            item = parent._data.pop(index)\n", "            if index >= len(parent):\n                raise IndexError\n            item = parent._data.pop(index)\n")], E24),
    ("li-set-equal", L, [("        if value is old:\n            return\n", "")], E24),
    ("li-set-swapped", L, [("self.events.changed.emit(key, old, value)", "self.events.changed.emit(key, value, old)")], E24),
    ("li-set-first", L, [("        old = self._data[key]\n        if value is old:\n            return\n", "        old = self._data[key]\n        if value is old:\n            return\n        self.events.changed.emit(key, old, value)\n"), ("        self.events.changed.emit(key, old, value)\n\n    def __del", "\n    def __del")], E24),
    ("li-move-plus", L, [("            dest_index += len(self) + 1\n        if dest_index in", "            dest_index += len(self)\n        if dest_index in")], E24),
    ("li-move-nodec", L, [(MV, MV.replace("        if dest_index > src_index:\n            dest_index -= 1\n", ""))], E24),
    ("li-move-moved", L, [(MV, MV.replace("self.events.moved.emit(src_index, dest_index, item)", "self.events.moved.emit(dest_index, src_index, item)"))], E24),
    ("li-move-noop", L, [("if dest_index in (src_index, src_index + 1):", "if dest_index == src_index:")], E24),
    ("li-move-late", L, [(MV, MV.replace("        self.events.reordered.emit()\n", "        if dest_index:\n            self.events.reordered.emit()\n"))], E24),
    ("li-multi-each", L, [(MM, MM.replace("        with self.events.reordered.blocked():\n", "        if True:\n"))], E24),
    ("li-multi-inside", L, [(MM, MM.replace("\n        self.events.reordered.emit()", "            self.events.reordered.emit()"))], E24),
    ("li-reverse-before", L, [("            self._data.reverse()\n        self.events.reordered.emit()\n", "            self.events.reordered.emit()\n            self._data.reverse()\n")], E24),
    ("li-clear-silent", L, [("    def copy(self) -> Self:\n", "    def clear(self) -> None:\n        self.events.removing.emit(0)\n        self._data.clear()\n\n    def copy(self) -> Self:\n")], E24),
    ("li-sort-silent", L, [("    def copy(self) -> Self:\n", "    def sort(self) -> None:\n        self._data.sort()\n\n    def copy(self) -> Self:\n")], E24),
    ("li-same-helper", L, [(INS, "        self._announce(index)\n        self._data.insert(index, _value)\n        self.events.inserted(index, _value)\n"), ("    def _pre_insert", "    def _announce(self, i: int) -> None:\n        self.events.inserting.emit(i)\n\n    def _pre_insert")], set()),
    ("li-same-move", L, [(MV, """        self.events.moving.emit(src_index, dest_index)
        target = dest_index - 1 if src_index < dest_index else dest_index
        element = self._data.pop(src_index)
        self._data.insert(target, element)
        self.events.moved.emit(src_index, target, element)
        self.events.reordered.emit()
""")], set()),
    ("li-same-noop", L, [("if dest_index in (src_index, src_index + 1):", "if dest_index == src_index or dest_index == src_index + 1:")], set()),
    ("li-same-noop2", L, [("if dest_index in (src_index, src_index + 1):", "if src_index <= dest_index <= src_index + 1:")], set()),
    ("li-same-idx", L, [(IDX, "            index = key\n            if index < 0:\n                index += len(self)\n")], set()),
    ("li-same-del", L, [("        for parent, index in sorted(self._delitem_indices(key), reverse=True):\n", "        pairs = list(self._delitem_indices(key))\n        pairs.sort(reverse=True)\n        for parent, index in pairs:\n")], set()),
    ("li-same-reversed", L, [("        for parent, index in sorted(self._delitem_indices(key), reverse=True):\n", "        for parent, index in reversed(sorted(self._delitem_indices(key))):\n")], set()),
    ("li-same-multi", L, [(MM, "        blocked = self.events.reordered.blocked()\n        with blocked:\n            for pair in move_plan:\n                self.move(*pair)\n        self.events.reordered.emit()\n")], set()),
    ("li-same-len", L, [("            src_index += len(self)\n        if dest", "            src_index += len(self._data)\n        if dest")], set()),
    ("li-same-set", L, [("        old = self._data[key]\n        if value is old:\n            return\n", "        events = self.events\n        old = self._data[key]\n        if old is value:\n            return None\n"), ("        self.events.changed.emit(key, old, value)", "        events.changed.emit(key, old, value)")], set()),
    ("li-same-extend", L, [("    def copy(self) -> Self:\n", "    def extend(self, values: Iterable[_T]) -> None:\n        for v in list(values):\n            self.append(v)\n\n    def copy(self) -> Self:\n")], set()),
    ("li-same-clear", L, [("    def copy(self) -> Self:\n", "    def clear(self) -> None:\n        del self[:]\n\n    def copy(self) -> Self:\n")], set()),
    # C25
    ("di-add-late", D, [(DSET, DSET.replace("            super().__setitem__(key, value)\n            self.events.added.emit(key, value)\n", "            self.events.added.emit(key, value)\n            super().__setitem__(key, value)\n"))], E25),
    ("di-change-old", D, [(DSET, DSET.replace("emit(key, old_value, value)", "emit(key, value, old_value)"))], E25),
    ("di-change-same", D, [(DSET, DSET.replace("if value is not old_value:", "if True:"))], E25),
    ("di-always-added", D, [(DSET, "        self.events.adding.emit(key)\n        super().__setitem__(key, value)\n        self.events.added.emit(key, value)\n")], E25),
    ("di-check-after", D, [("        self._dict[key] = self._type_check(value)", "        self._dict[key] = value\n        self._type_check(value)")], E25),
    ("di-check-skipped", D, [(DSET, DSET.replace("                super().__setitem__(key, value)\n", "                self._dict[key] = value\n"))], E25),
    ("di-del-after", D, [(DDEL, DDEL.replace("        item = self._dict[key]\n", "").replace("        self.events.removed.emit(key, item)", "        self.events.removed.emit(key, self._dict.get(key))"))], E25),
    ("di-del-missing", D, [(DDEL, "        self.events.removing.emit(key)\n        item = self._dict[key]\n        super().__delitem__(key)\n        self.events.removed.emit(key, item)\n")], E25),
    ("di-clear-silent", D, [("    def __delitem__(self, key: _K) -> None:\n        item", "    def clear(self) -> None:\n        self._dict.clear()\n\n    def __delitem__(self, key: _K) -> None:\n        item")], E25),
    ("di-base-clear", D, [("    def __repr__(self) -> str:\n        return repr(", "    def clear(self) -> None:\n        self._dict.clear()\n\n    def __repr__(self) -> str:\n        return repr(")], E25),
    ("di-copy-types", D, [("        new._basetypes = self._basetypes\n", "")], E25),
    ("di-same-flip", D, [(DSET, """        present = key in self._dict
        if present:
            previous = self._dict[key]
            if previous is value:
                return
            self.events.changing.emit(key)
            super().__setitem__(key, value)
            self.events.changed.emit(key, previous, value)
            return
        self.events.adding.emit(key)
        super().__setitem__(key, value)
        self.events.added.emit(key, value)
""")], set()),
    ("di-same-pop", D, [(DDEL, "        events = self.events\n        value = self[key]\n        events.removing(key)\n        super().__delitem__(key)\n        events.removed(key, value)\n")], set()),
    ("di-same-check", D, [("        self._dict[key] = self._type_check(value)", "        checked = self._type_check(value)\n        self._dict[key] = checked")], set()),
    ("di-same-contains", D, [("    def __repr__(self) -> str:\n        return repr(", "    def __contains__(self, key: object) -> bool:\n        return key in self._dict\n\n    def __repr__(self) -> str:\n        return repr(")], set()),
    # C26
    ("se-add-always", S, [("        return BAIL if item in self else item\n", "        return item\n")], E26),
    ("se-discard-always", S, [("        return BAIL if item not in self else item\n", "        return item\n")], E26),
    ("se-clear-late", S, [("        return BAIL if len(self) == 0 else tuple(self)\n", "        return BAIL if len(self) == 0 else self  # type: ignore\n")], E26),
    ("se-clear-empty", S, [("        return BAIL if len(self) == 0 else tuple(self)\n", "        return tuple(self)\n")], E26),
    ("se-diff-live", S, [("        for i in tuple(chain(*s)):\n", "        for i in chain(*s):\n")], E26),
    ("se-inter-live", S, [("        for i in tuple(self):\n            if i not in other:\n", "        for i in self:\n            if i not in other:\n")], E26),
    ("se-sym-twice", S, [("        for i in tuple(dict.fromkeys(__s)):\n", "        for i in tuple(__s):\n")], E26),
    ("se-sym-live", S, [("        for i in tuple(dict.fromkeys(__s)):\n            self.discard(i) if i in self else self.add(i)\n", "        if __s is self:\n            for i in self:\n                self.discard(i)\n            return\n        for i in tuple(dict.fromkeys(__s)):\n            self.discard(i) if i in self else self.add(i)\n")], E26),
    ("se-update-each", S, [("        with self.events.items_changed.paused(_reduce_events):\n            super().update(*others)\n", "        super().update(*others)\n")], E26),
    ("se-diff-each", S, [("        with self.events.items_changed.paused(_reduce_events):\n            super().difference_update(*s)\n", "        super().difference_update(*s)\n")], E26),
    ("se-reduce-swap", S, [("    return tuple(added_li), tuple(removed_li)\n", "    return tuple(removed_li), tuple(added_li)\n")], E26),
    ("se-reduce-last", S, [("        removed_li.extend(removed)\n", "        removed_li = list(removed)\n")], E26),
    ("se-emit-swap", S, [("        self._emit_change((), (item,))\n", "        self._emit_change((item,), ())\n")], E26),
    ("se-inter-which", S, [("            if i not in other:\n                self.discard(i)\n", "            if i in other:\n                self.discard(i)\n")], E26),
    ("se-symdiff-half", S, [("            (i for i in other if i not in self), (i for i in self if i not in other)\n", "            (i for i in other if i not in self), (i for i in self if i in other)\n")], E26),
    ("se-union-self", S, [("        new = self.copy()\n        new.update(*s)\n        return new\n", "        self.update(*s)\n        return self.copy()\n")], E26),
    ("se-ordered-set", S, [("        self._data = {}\n        self.update(iterable)\n", "        self._data = set()  # type: ignore\n        self.update(iterable)\n"), ("        self._data[item] = None\n", "        self._data.add(item)\n"), ("        self._data.pop(item, None)\n", "        self._data.discard(item)\n")], E26),
    ("se-ordered-move", S, [("        self._data[item] = None\n", "        self._data.pop(item, None)\n        self._data[item] = None\n")], E26),
    ("se-post-first", S, [("            self._do_add(_item)\n            self._post_add_hook(_item)\n", "            self._post_add_hook(_item)\n            self._do_add(_item)\n")], E26),
    ("se-same-bail", S, [("        if not isinstance(_item, BailType):\n            self._do_add(_item)\n            self._post_add_hook(_item)\n", "        if isinstance(_item, BailType):\n            return\n        self._do_add(_item)\n        self._post_add_hook(_item)\n")], set()),
    ("se-same-isbail", S, [("        if not isinstance(_item, BailType):\n            self._do_discard(_item)\n", "        if _item is not BAIL:\n            self._do_discard(_item)\n")], set()),
    ("se-same-hooks", S, [("        return BAIL if item in self else item\n", "        if item in self._data:\n            return BAIL\n        return item\n")], set()),
    ("se-same-reduce", S, [("    added_li: list = []\n    removed_li: list = []\n    for added, removed in li:\n        added_li.extend(added)\n        removed_li.extend(removed)\n    return tuple(added_li), tuple(removed_li)\n", "    all_added: tuple = ()\n    all_removed: tuple = ()\n    for change in li:\n        all_added += tuple(change[0])\n        all_removed += tuple(change[1])\n    return all_added, all_removed\n")], set()),
    ("se-same-list", S, [("        for i in tuple(chain(*s)):\n", "        for i in list(chain(*s)):\n")], set()),
    ("se-same-chain", S, [("        for i in tuple(chain(*s)):\n", "        for i in set(chain.from_iterable(s)):\n")], set()),
    ("se-same-sym", S, [("            self.discard(i) if i in self else self.add(i)\n", "            if i in self:\n                self.discard(i)\n            else:\n                self.add(i)\n")], set()),
    ("se-same-inter", S, [("        other = set(self).intersection(*s)\n        for i in tuple(self):\n            if i not in other:\n                self.discard(i)\n", "        keep = set(self).intersection(*s)\n        gone = [i for i in self if i not in keep]\n        for i in gone:\n            self.discard(i)\n")], set()),
    ("se-same-union", S, [("        new = self.copy()\n        new.update(*s)\n        return new\n", "        return self.__class__(chain(self, *s))\n")], set()),
    ("se-same-clear", S, [("        return BAIL if len(self) == 0 else tuple(self)\n", "        return tuple(self) if len(self) > 0 else BAIL\n")], set()),
    ("se-same-diff", S, [("        other = set(chain(*s))\n        return self.__class__(i for i in self if i not in other)\n", "        other = set(chain(*s))\n        kept = []\n        for i in self:\n            if i not in other:\n                kept.append(i)\n        return self.__class__(kept)\n")], set()),
    # C27
    ("sl-active-late", SEL, [("        super()._emit_change(added, removed)\n        self._update_active()\n", "        super()._emit_change(added, removed)\n        if added:\n            self._update_active()\n")], E27),
    ("sl-active-two", SEL, [("        if len(self) == 1:\n            self.active", "        if len(self) >= 1:\n            self.active")], E27),
    ("sl-active-keep", SEL, [("        elif self._active is not None:\n            self._active = None\n            self.events.active.emit(None)\n", "")], E27),
    ("sl-active-silent", SEL, [("            self._active = None\n            self.events.active.emit(None)\n", "            self._active = None\n")], E27),
    ("sl-set-nocurrent", SEL, [("        self._current = value\n        self.events.active.emit(value)\n", "        self.events.active.emit(value)\n")], E27),
    ("sl-set-norest", SEL, [("        self.intersection_update({obj})\n        self.add(obj)\n", "        self.add(obj)\n")], E27),
    ("sl-set-noadd", SEL, [("        self.intersection_update({obj})\n        self.add(obj)\n", "        self.intersection_update({obj})\n")], E27),
    ("sl-set-refused", SEL, [("        if value is not None:\n            self._pre_add_hook(value)  # raises if value cannot be selected\n", "")], E27),
    ("sl-set-none", SEL, [("        self.clear() if value is None else self.select_only(value)\n", "        if value is not None:\n            self.select_only(value)\n")], E27),
    ("sl-parent", SEL, [("        if self._parent is not None and item not in self._parent:\n", "        if self._parent and item not in self._parent:\n")], E27),
    ("sl-parent-gone", SEL, [("        if self._parent is not None and item not in self._parent:\n", "        if item is None and item not in (self._parent or ()):\n")], E27),
    ("sl-clear-keep", SEL, [("        if not keep_current:\n            self._current = None\n", "        self._current = None\n")], E27),
    ("sl-clear-current", SEL, [("        if not keep_current:\n            self._current = None\n", "")], E27),
    ("sl-toggle-add", SEL, [("        self.symmetric_difference_update({obj})\n", "        self.update({obj})\n")], E27),
    ("sl-assign-iter", SEL, [("        new_selection = tuple(new_selection)  # may be an iterator\n", "")], E27),
    ("sl-assign-add", SEL, [("        self._selection.intersection_update(new_selection)\n", "")], E27),
    ("sl-removed", SL, [("        self.events.removed.connect(self._on_item_removed)\n", "")], E27),
    ("sl-removed-idx", SL, [("        self.selection.discard(obj)\n\n    def _on_item_changed", "        self.selection.discard(idx)\n\n    def _on_item_changed")], E27),
    ("sl-changed", SL, [("        self.events.changed.connect(self._on_item_changed)\n", "")], E27),
    ("sl-changed-new", SL, [("        for obj in old if isinstance(idx, slice) else (old,):\n            if obj not in self:\n", "        for obj in old if isinstance(idx, slice) else (old,):\n            if obj in self:\n")], E27),
    ("sl-changed-slice", SL, [("        for obj in old if isinstance(idx, slice) else (old,):\n", "        for obj in () if isinstance(idx, slice) else (old,):\n")], E27),
    ("sl-insert", SL, [("        if self._activate_on_insert:\n            self.selection.active = value\n", "        self.selection.active = value\n")], E27),
    ("sl-next-current", SL, [("        elif not self.selection or self.selection._current not in self:\n", "        elif not self.selection:\n")], E27),
    ("sl-next-range", SL, [("        idx_in_sequence = len(self) > idx >= 0\n", "        idx_in_sequence = len(self) >= idx >= 0\n")], E27),
    ("sl-next-empty", SL, [("        if len(self) == 0:\n            return\n        elif not", "        if not")], E27),
    ("sl-next-expand", SL, [("            self.selection.add(next_item)\n            self.selection._current = next_item\n", "            self.selection.add(next_item)\n")], E27),
    ("sl-prev", SL, [("            step=-1, expand_selection", "            step=1, expand_selection")], E27),
    ("sl-remove-live", SL, [("        for item in list(self.selection):\n", "        for item in self.selection:\n")], E27),
    ("sl-remove-result", SL, [("        selected_items = tuple(self.selection)\n", "        selected_items = self.selection  # type: ignore\n")], E27),
    ("sl-remove-neighbour", SL, [("        if len(self) > new_idx:\n            self.selection.add(self[new_idx])\n", "        if len(self) >= new_idx:\n            self.selection.add(self[new_idx])\n")], E27),
    ("sl-same-active", SEL, [("        if len(self) == 1:\n            self.active = next(iter(self))\n        elif self._active is not None:\n            self._active = None\n            self.events.active.emit(None)\n", "        if len(self) != 1:\n            if self._active is not None:\n                self._active = None\n                self.events.active.emit(None)\n            return\n        (only,) = self\n        self.active = only\n")], set()),
    ("sl-same-only", SEL, [("        self.intersection_update({obj})\n        self.add(obj)\n", "        keep = {obj}\n        self.intersection_update(keep)\n        self.update(keep)\n")], set()),
    ("sl-same-parent", SEL, [("        if self._parent is not None and item not in self._parent:\n            raise ValueError(\n                \"Cannot select an item that is not in the parent container.\"\n            )\n        return super()._pre_add_hook(item)\n", "        parent = self._parent\n        if parent is None or item in parent:\n            return super()._pre_add_hook(item)\n        raise ValueError(\"Cannot select an item that is not in the parent container.\")\n")], set()),
    ("sl-same-toggle", SEL, [("        self.symmetric_difference_update({obj})\n", "        if obj in self:\n            self.discard(obj)\n        else:\n            self.add(obj)\n")], set()),
    ("sl-same-assign", SEL, [("        new_selection = tuple(new_selection)  # may be an iterator\n        self._selection.intersection_update(new_selection)\n        self._selection.update(new_selection)\n", "        items = list(new_selection)\n        selection = self._selection\n        selection.intersection_update(items)\n        selection.update(items)\n")], set()),
    ("sl-same-changed", SL, [("        for obj in old if isinstance(idx, slice) else (old,):\n            if obj not in self:\n                self.selection.discard(obj)\n", "        gone = list(old) if isinstance(idx, slice) else [old]\n        for obj in gone:\n            if obj in self:\n                continue\n            self.selection.discard(obj)\n")], set()),
    ("sl-same-next", SL, [("        idx_in_sequence = len(self) > idx >= 0\n        if wraparound:\n            idx = idx % len(self)\n        elif not idx_in_sequence:\n            idx = -1 if step > 0 else 0\n", "        if wraparound:\n            idx %= len(self)\n        elif idx < 0 or idx >= len(self):\n            idx = -1 if step > 0 else 0\n")], set()),
    ("sl-same-next2", SL, [("        if len(self) == 0:\n            return\n        elif not self.selection or self.selection._current not in self:\n            idx = -1 if step > 0 else 0\n        else:\n            idx = self.index(self.selection._current) + step\n", "        total = len(self)\n        if not total:\n            return\n        current = self.selection._current\n        if self.selection and current in self:\n            idx = step + self.index(current)\n        else:\n            idx = -1 if step > 0 else 0\n")], set()),
    ("sl-same-prev", SL, [("        self.select_next(\n            step=-1, expand_selection=expand_selection, wraparound=wraparound\n        )\n", "        self.select_next(-1, expand_selection, wraparound)\n")], set()),
    ("sl-same-remove", SL, [("        for item in list(self.selection):\n", "        for item in selected_items:\n")], set()),
    ("sl-same-clear", SEL, [("        if not keep_current:\n            self._current = None\n        super().clear()\n", "        if keep_current:\n            super().clear()\n            return\n        self._current = None\n        super().clear()\n")], set()),
    # C30
    ("ch-set-connect", L, [(CON, CON.replace("            for child in value if is_slice else (value,):\n                self._connect_child_emitters(child)\n", ""))], E30),
    ("ch-set-disconnect", L, [(CON, CON.replace("            for child in old if is_slice else (old,):\n                self._disconnect_child_emitters(child)\n", ""))], E30),
    ("ch-set-slice", L, [(CON, CON.replace("            for child in value if is_slice else (value,):\n", "            for child in (value,):\n"))], E30),
    ("ch-set-swap", L, [(CON, CON.replace("_disconnect_", "_x_").replace("_connect_", "_disconnect_").replace("_x_", "_connect_"))], E30),
    ("ch-insert", L, [("        if self._child_events:\n            self._connect_child_emitters(new_item)\n", "        if not self._child_events:\n            self._connect_child_emitters(new_item)\n")], E30),
    ("ch-remove", L, [("            parent._pre_remove(index)\n            item = parent._data.pop(index)\n", "            item = parent._data.pop(index)\n")], E30),
    ("ch-remove-after", L, [("            parent._pre_remove(index)\n            item = parent._data.pop(index)\n", "            item = parent._data.pop(index)\n            if index < len(parent):\n                parent._pre_remove(index)\n")], E30),
    ("ch-emit-args", L, [("        self.events.child_event.emit(idx, obj, emitter, args)\n", "        self.events.child_event.emit(idx, obj, emitter, args[:1])\n")], E30),
    ("ch-emit-equal", L, [("        idx = next((i for i, item in enumerate(self._data) if item is obj), None)\n", "        idx = None\n")], E30),
    ("ch-emit-relay", L, [("            emitter, args = args[0]\n", "            args = args[0].args\n")], E30),
    ("ch-emit-info", L, [("            and isinstance(emitter, SignalRelay)\n", "")], E30),
    ("ch-same-set", L, [(CON, CON.replace("            is_slice = isinstance(key, slice)\n            for child in old if is_slice else (old,):\n                self._disconnect_child_emitters(child)\n            for child in value if is_slice else (value,):\n                self._connect_child_emitters(child)\n", "            if isinstance(key, slice):\n                left, came = list(old), list(value)\n            else:\n                left, came = [old], [value]\n            for gone in left:\n                self._disconnect_child_emitters(gone)\n            for new in came:\n                self._connect_child_emitters(new)\n"))], set()),
    ("ch-same-emit", L, [("        idx = next((i for i, item in enumerate(self._data) if item is obj), None)\n        if idx is None:\n", "        for idx, item in enumerate(self._data):\n            if item is obj:\n                break\n        else:\n")], set()),
    ("ch-same-wire", L, [("        for emitter in iter_signal_instances(child):\n            emitter.connect(self._reemit_child_event)\n", "        reemit = self._reemit_child_event\n        for sig in list(iter_signal_instances(child)):\n            sig.connect(reemit)\n")], set()),
    ("ch-same-relay", L, [("            emitter, args = args[0]\n", "            info = args[0]\n            emitter = info.signal\n            args = info.args\n")], set()),
]
