S = "_signal.py"
G = "_group.py"
W = "_weak_callback.py"
APP = """        if not self._priority_in_use:
            if not slot.priority:
                self._slots.append(slot)
                return
            # remember that we have a priority in use, so we skip this check
            self._priority_in_use = True
"""
LOOP = """        for i, s in enumerate(self._slots):
            if s.priority < slot.priority:
                self._slots.insert(i, slot)
                return
        self._slots.append(slot)
"""
DISC = """            idx = self._slot_index(slot)
            if idx != -1:
                self._remove_slot(idx)
            elif not missing_ok:
                raise ValueError(f"slot is not connected: {slot}")
"""
SIDX = """            return next((i for i, s in enumerate(self._slots) if s == normed), -1)"""
DSA = """        with self._lock:
            cb = WeakSetattr(obj, attr, on_ref_error="ignore")
            self._try_discard(cb, missing_ok)"""
CALLER = """                on_ref_error=on_ref_error,
                priority=priority,
            )
            self._append_slot(caller)
        return caller"""
UNIQ = """                if unique and slot in self:
                    if unique == "raise":
                        raise ValueError(
                            "Slot already connect. Use `connect(..., unique=False)` "
                            "to allow duplicate connections"
                        )
                    return slot
"""
NARG = "            if check_nargs and (max_args is None):\n"
MK = """                cb = weak_callback(
                    slot,
                    max_args=max_args,
                    finalize=self._try_discard,
                    on_ref_error=_on_ref_err,
                    priority=priority,
                )
                if thread is not None:
                    cb = QueuedCallback(cb, thread=thread)
                self._append_slot(cb)
            return slot
"""
CASES = [
    # priority
    ("prio-le", S, [("if s.priority < slot.priority:", "if s.priority <= slot.priority:")], {"C07"}),
    ("prio-gt", S, [("if s.priority < slot.priority:", "if s.priority > slot.priority:")], {"C07"}),
    ("prio-noflag", S, [("            # remember that we have a priority in use, so we skip this check\n            self._priority_in_use = True\n", "")], {"C07"}),
    ("prio-abs", S, [("            if not slot.priority:\n", "            if slot.priority <= 0:\n")], {"C07"}),
    ("prio-noloop", S, [(LOOP, "        self._slots.append(slot)\n")], {"C07"}),
    ("prio-plus1", S, [("self._slots.insert(i, slot)", "self._slots.insert(i + 1, slot)")], {"C07"}),
    ("prio-reversed-scan", S, [(LOOP, """        for i in range(len(self._slots)):
            if self._slots[i].priority < slot.priority:
                self._slots.insert(0, slot)
                return
        self._slots.append(slot)
""")], {"C07"}),
    ("prio-flagreset", S, [("            self._priority_in_use = True\n\n        # otherwise", "            self._priority_in_use = False\n\n        # otherwise")], {"C07"}),
    ("prio-setattr-drop", S, [("                on_ref_error=on_ref_error,\n                priority=priority,\n            )\n            self._append_slot(caller)\n        return caller", "                on_ref_error=on_ref_error,\n            )\n            self._append_slot(caller)\n        return caller")], {"C08"}),
    ("same-prio-while", S, [(LOOP, """        pos = 0
        while pos < len(self._slots):
            if slot.priority > self._slots[pos].priority:
                break
            pos += 1
        self._slots.insert(pos, slot)
""")], set()),
    ("same-prio-elif", S, [(LOOP, """        for position, other in enumerate(self._slots):
            if other.priority >= slot.priority:
                continue
            self._slots.insert(position, slot)
            break
        else:
            self._slots.append(slot)
""")], set()),
    ("same-prio-helper", S, [(LOOP, """        self._slots.insert(self._insert_pos(slot), slot)

    def _insert_pos(self, slot: WeakCallback) -> int:
        for i, s in enumerate(self._slots):
            if s.priority < slot.priority:
                return i
        return len(self._slots)
""")], set()),
    ("same-prio-next", S, [(LOOP, """        idx = next(
            (i for i, s in enumerate(self._slots) if s.priority < slot.priority),
            len(self._slots),
        )
        self._slots.insert(idx, slot)
""")], set()),
    ("same-prio-flag", S, [(APP, """        if not self._priority_in_use and not slot.priority:
            self._slots.append(slot)
            return
        self._priority_in_use = True
""")], set()),
    ("same-prio-fastend", S, [(LOOP, """        if not self._slots or self._slots[-1].priority >= slot.priority:
            self._slots.append(slot)
            return
""" + LOOP)], set()),
    ("prio-fastend-bad", S, [(LOOP, """        if not self._slots or self._slots[0].priority >= slot.priority:
            self._slots.append(slot)
            return
""" + LOOP)], {"C07"}),
    # locks
    ("lock-connect", S, [("            with self._lock:\n                if unique", "            if True:\n                if unique")], {"C06"}),
    ("lock-connect-late", S, [(MK, MK.replace("                self._append_slot(cb)\n            return slot", "            self._append_slot(cb)\n            return slot"))], {"C06"}),
    ("lock-disc", S, [("        with self._lock:\n            if slot is None:", "        if True:\n            if slot is None:")], {"C06"}),
    ("lock-disc-split", S, [("""        with self._lock:
            if slot is None:
                # NOTE: clearing an empty list is actually a RuntimeError in Qt
                self._remove_slot("all")
                return

""" + DISC, """        if slot is None:
            with self._lock:
                self._remove_slot("all")
            return
        idx = self._slot_index(slot)
        if idx != -1:
            with self._lock:
                self._remove_slot(idx)
        elif not missing_ok:
            raise ValueError(f"slot is not connected: {slot}")
""")], {"C06"}),
    ("lock-setattr", S, [("        with self._lock:\n            caller = WeakSetattr(", "        if True:\n            caller = WeakSetattr(")], {"C06"}),
    ("lock-dsetitem", S, [("        with self._lock:\n            caller = WeakSetitem(obj, key, on_ref", "        if True:\n            caller = WeakSetitem(obj, key, on_ref")], {"C06"}),
    ("lock-plain", S, [("self._is_paused: bool = False\n        self._lock = threading.RLock()", "self._is_paused: bool = False\n        self._lock = threading.Lock()")], {"C06"}),
    ("same-lock-acquire", S, [("        with self._lock:\n            cb = WeakSetattr(obj, attr, on_ref_error=\"ignore\")\n            self._try_discard(cb, missing_ok)", "        self._lock.acquire()\n        try:\n            cb = WeakSetattr(obj, attr, on_ref_error=\"ignore\")\n            self._try_discard(cb, missing_ok)\n        finally:\n            self._lock.release()")], set()),
    ("same-lock-alias", S, [("        with self._lock:\n            if slot is None:", "        lock = self._lock\n        with lock:\n            if slot is None:")], set()),
    # options
    ("opt-maxargs", S, [("                    max_args=max_args,\n                    finalize=self._try_discard", "                    max_args=None,\n                    finalize=self._try_discard")], {"C08"}),
    ("opt-thread", S, [("                if thread is not None:\n                    cb = Q", "                if thread:\n                    pass\n                if thread is not None and max_args is None:\n                    cb = Q")], {"C08"}),
    ("opt-deco-maxargs", S, [("return _wrapper if slot is None else _wrapper(slot)", "return (lambda s: _wrapper(s, None)) if slot is None else _wrapper(slot)")], {"C08"}),
    ("opt-deco-ref", S, [("            _on_ref_err: RefErrorChoice = on_ref_error,\n", "            _on_ref_err: RefErrorChoice = \"warn\",\n")], {"C08"}),
    ("opt-unique-early", S, [(UNIQ, UNIQ.replace('                    return slot\n', ''))], {"C08"}),
    ("opt-unique-noraise", S, [('if unique == "raise":', 'if unique is True:')], {"C08"}),
    ("opt-unique-dropped", S, [("if unique and slot in self:", "if unique is True and slot in self:")], {"C08"}),
    ("opt-return", S, [("                self._append_slot(cb)\n            return slot", "                self._append_slot(cb)\n            return cb  # type: ignore")], {"C08"}),
    ("opt-group-thread", G, [("            thread=thread,\n", "")], {"C08"}),
    ("opt-qt-always", S, [("                    if isqt:\n                        _on", "                    if True:\n                        _on")], {"C08"}),
    ("same-opt-hoist", S, [(MK, """                cb = self._make_callback(slot, max_args, _on_ref_err, priority)
                if thread is not None:
                    cb = QueuedCallback(cb, thread=thread)
                self._append_slot(cb)
            return slot
"""), ("    def _append_slot(self", """    def _make_callback(self, slot, max_args, ref_err, priority):
        return weak_callback(
            slot,
            max_args=max_args,
            finalize=self._try_discard,
            on_ref_error=ref_err,
            priority=priority,
        )

    def _append_slot(self""")], set()),
    ("same-uniq-any", S, [("if unique and slot in self:", "already = bool(unique) and slot in self\n                if already:")], set()),
    ("same-deco-lambda", S, [("return _wrapper if slot is None else _wrapper(slot)", "if slot is not None:\n            return _wrapper(slot)\n        return _wrapper")], set()),
    # refusal
    ("ref-callable", S, [('            if not callable(slot):\n                raise TypeError(f"Cannot connect to non-callable object: {slot}")\n', '')], {"C09"}),
    ("ref-late", S, [(MK, MK.replace("            return slot", "                if not callable(slot):\n                    raise TypeError('x')\n            return slot")), ('            if not callable(slot):\n                raise TypeError(f"Cannot connect to non-callable object: {slot}")\n', '')], {"C09"}),
    ("ref-nargs-cmp", S, [("if minargs > (n_spec_params := len(spec.parameters)):", "if minargs > (n_spec_params := len(spec.parameters)) + 1:")], {"C09"}),
    ("ref-nargs-max", S, [("if minargs > (n_spec_params := len(spec.parameters)):", "if maxargs is not None and minargs > (n_spec_params := len(spec.parameters)):")], {"C09"}),
    ("ref-default", S, [("            check_types = self._check_types_on_connect", "            check_types = False")], {"C09"}),
    ("ref-types-only", S, [("                if check_types:\n                    slot_sig = slot", "                if check_types and check_nargs:\n                    slot_sig = slot")], {"C09"}),
    ("ref-range-default", S, [("            if param.default is Parameter.empty:", "            if param.default is None:")], {"C09"}),
    ("ref-hasattr", S, [('        if not hasattr(obj, attr):\n            raise AttributeError(f"Object {obj} has no attribute {attr!r}")\n', '')], {"C09"}),
    ("ref-types-all", S, [("        if not _is_subclass(f_anno, spec_param.annotation):\n            return False\n    return True", "        if not _is_subclass(f_anno, spec_param.annotation):\n            continue\n    return True")], {"C09"}),
    ("ref-types-break", S, [("            # if function parameter is not type annotated, allow it.\n            continue", "            # if function parameter is not type annotated, allow it.\n            return True")], {"C09"}),
    ("same-ref-cmp", S, [("if minargs > (n_spec_params := len(spec.parameters)):", "n_spec_params = len(spec.parameters)\n        if n_spec_params < minargs:")], set()),
    ("same-ref-order", S, [("""        if check_nargs is None:
            check_nargs = self._check_nargs_on_connect
        if check_types is None:
            check_types = self._check_types_on_connect
""", """        check_types = self._check_types_on_connect if check_types is None else check_types
        check_nargs = self._check_nargs_on_connect if check_nargs is None else check_nargs
""")], set()),
    # disconnect
    ("disc-all", S, [('                self._remove_slot("all")\n                return\n', '                self._slots.pop()\n                return\n')], {"C11"}),
    ("disc-idx", S, [("            if idx != -1:\n", "            if idx > 0:\n")], {"C11"}),
    ("disc-idx0", S, [("            if idx != -1:\n                self._remove_slot(idx)", "            if idx != -1:\n                self._remove_slot(idx - 1)")], {"C11"}),
    ("disc-every", S, [(DISC, """            normed = weak_callback(slot, on_ref_error="ignore")
            n = len(self._slots)
            self._slots[:] = [s for s in self._slots if s != normed]
            if len(self._slots) == n and not missing_ok:
                raise ValueError(f"slot is not connected: {slot}")
""")], {"C11"}),
    ("disc-missing", S, [("            elif not missing_ok:\n                raise ValueError(f\"slot", "            elif missing_ok:\n                raise ValueError(f\"slot")], {"C11"}),
    ("disc-last", S, [("self._slots.pop(slot)", "self._slots.pop()")], {"C11"}),
    ("disc-setattr", S, [('cb = WeakSetattr(obj, attr, on_ref_error="ignore")', 'cb = WeakSetitem(obj, attr, on_ref_error="ignore")')], {"C11"}),
    ("disc-discard", S, [("            if not missing_ok:\n                raise\n", "            pass\n")], {"C11"}),
    ("disc-key-setattr", W, [('        self._key += f".__setattr__({attr!r})"', '        self._key += ".__setattr__"')], {"C11"}),
    ("disc-contains", S, [("return self._slot_index(slot) >= 0", "return self._slot_index(slot) > 0")], {"C11"}),
    ("same-disc-contains", S, [("return self._slot_index(slot) >= 0", "return self._slot_index(slot) != -1")], set()),
    ("same-disc-loop", S, [(SIDX, """            for position, other in enumerate(self._slots):
                if other == normed:
                    return position
            return -1""")], set()),
    ("same-disc-del", S, [("self._slots.pop(slot)", "del self._slots[slot]")], set()),
    ("same-disc-early", S, [(DISC, """            idx = self._slot_index(slot)
            if idx == -1:
                if missing_ok:
                    return
                raise ValueError(f"slot is not connected: {slot}")
            self._remove_slot(idx)
""")], set()),
    ("same-disc-direct", S, [('                self._remove_slot("all")\n                return\n', '                self._remove_slot("all")\n                return None\n')], set()),
    # annotations
    ("ty-union-all", S, [("return any(issubclass(i, right) for i in get_args(left))", "return all(issubclass(i, right) for i in get_args(left))")], {"C09"}),
    ("ty-union-yes", S, [("return any(issubclass(i, right) for i in get_args(left))", "return True")], {"C09"}),
    ("ty-flipped", S, [("    return issubclass(left, right)\n\n\ndef _guess", "    return issubclass(right, left)\n\n\ndef _guess")], {"C09"}),
    ("ty-string-skipped", S, [("            f_anno = func_hints.get(f_param.name)\n", "            f_anno = func_hints.get(f_param.name)\n            continue\n")], {"C09"}),
    ("ty-first-only", S, [("        if not _is_subclass(f_anno, spec_param.annotation):\n            return False\n    return True", "        return _is_subclass(f_anno, spec_param.annotation)\n    return True")], {"C09"}),
    ("ty-misaligned", S, [("zip(fsig.parameters.values(), spec.parameters.values())", "zip((p for p in fsig.parameters.values() if p.annotation is not fsig.empty), spec.parameters.values())")], {"C09"}),
    ("ty-identity", S, [("    return issubclass(left, right)\n\n\ndef _guess", "    return left is right\n\n\ndef _guess")], {"C09"}),
    ("same-ty-all", S, [("        if not _is_subclass(f_anno, spec_param.annotation):\n            return False\n    return True", "        ok = _is_subclass(f_anno, spec_param.annotation)\n        if ok:\n            continue\n        return False\n    return True")], set()),
    ("same-ty-index", S, [("    for f_param, spec_param in zip(fsig.parameters.values(), spec.parameters.values()):\n", "    wanted = list(spec.parameters.values())\n    for i, f_param in enumerate(fsig.parameters.values()):\n        if i >= len(wanted):\n            break\n        spec_param = wanted[i]\n")], set()),
    ("same-ty-union-loop", S, [("        return any(issubclass(i, right) for i in get_args(left))\n", "        for member in get_args(left):\n            if issubclass(member, right):\n                return True\n        return False\n")], set()),
    ("same-ty-hints-first", S, [("    func_hints: dict | None = None\n", "    func_hints: dict | None = None\n    if any(isinstance(p.annotation, str) for p in fsig.parameters.values()):\n        func_hints = get_type_hints(function)\n")], set()),
]
