D, DC = "_group_descriptor.py", "_dataclass_utils.py"
E31, E34, E35 = {"C31"}, {"C34"}, {"C35"}
EX = """        new: Any = getattr(self.obj, self.field, _NULL)
        if not _check_field_equality(type(self.obj), self.field, self._prev, new):
            self.signal.emit(new, self._prev)
"""
SA = """            # don't emit if the signal doesn't exist or has no listeners
            signal: SignalInstance | None = get_signal(group, name)
            if signal is None or len(signal) < 1:
                return super_setattr(self, name, value)

            with _changes_emitted(self, name, signal):
                super_setattr(self, name, value)
"""
GS = """    sig_name = group._psygnal_aliases.get(name, name)
    if sig_name is None or sig_name not in group:
        return None
    return group[sig_name]
"""
AL = """        if name in _signal_aliases:  # an alias has been provided in a mapping
            sig_name = _signal_aliases[name]
        elif callable(transform):  # a callable has been provided
            _signal_aliases[name] = sig_name = transform(name)
        elif name in signal_group_sig_aliases:  # an alias has been defined in the class
            _signal_aliases[name] = sig_name = signal_group_sig_aliases[name]
        else:  # no alias has been defined, use the field name as the signal name
            sig_name = name
"""
GET = """        obj_id = id(instance)
        if obj_id not in self._instance_map:
            # cache it
            self._instance_map[obj_id] = signal_group(instance)
"""
FIN = "                weakref.finalize(instance, self._instance_map.pop, obj_id, None)\n"
OFIN = "            weakref.finalize(owner, self._signal_groups.pop, type_id, None)\n"
CASES = [
    # C31
    ("ev-emit-swapped", D, [("self.signal.emit(new, self._prev)", "self.signal.emit(self._prev, new)")], E31),
    ("ev-emit-always", D, [("        if not _check_field_equality(type(self.obj), self.field, self._prev, new):\n            self.signal.emit", "        if new is not self._prev:\n            self.signal.emit")], E31),
    ("ev-emit-value", D, [("with _changes_emitted(self, name, signal):\n                super_setattr(self, name, value)", "prev = getattr(self, name, _NULL)\n            super_setattr(self, name, value)\n            if not _check_field_equality(type(self), name, prev, value):\n                signal.emit(value, prev)")], E31),
    ("ev-prev-late", D, [("with _changes_emitted(self, name, signal):\n                super_setattr(self, name, value)", "super_setattr(self, name, value)\n            with _changes_emitted(self, name, signal):\n                pass")], E31),
    ("ev-double-patch", D, [("        if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):\n            return super_setattr\n", "")], E31),
    ("ev-no-flag", D, [("        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, True)\n", "")], {"C31", "C35"}),
    ("ev-alias-ignored", D, [("    sig_name = group._psygnal_aliases.get(name, name)\n", "    sig_name = name\n")], E31),
    ("ev-alias-none", D, [(GS, "    sig_name = group._psygnal_aliases.get(name) or name\n    if sig_name not in group:\n        return None\n    return group[sig_name]\n")], E31),
    ("ev-operator-ignored", D, [("    are_equal = eq_map.setdefault(name, operator.eq)\n", "    are_equal = operator.eq\n")], E31),
    ("ev-operator-args", D, [("return bool(are_equal(after, before))", "return bool(are_equal(after, after))")], E31),
    ("ev-cmp-raises", D, [("    except Exception:\n        if _fail:", "    except ValueError:\n        if _fail:")], E31),
    ("ev-one-listener", D, [("len(signal) < 1", "len(signal) < 2")], E31),
    ("ev-set-twice", D, [("            with _changes_emitted(self, name, signal):\n", "            super_setattr(self, name, value)\n            with _changes_emitted(self, name, signal):\n")], E31),
    ("ev-unheard-lost", D, [("            if signal is None or len(signal) < 1:\n                return super_setattr(self, name, value)\n", "            if signal is None:\n                return super_setattr(self, name, value)\n            if len(signal) < 1:\n                return None\n")], E31),
    ("same-setattr-inline", D, [(SA, "            signal = get_signal(group, name)\n            if signal is None or not len(signal):\n                super_setattr(self, name, value)\n                return None\n            before = getattr(self, name, _NULL)\n            super_setattr(self, name, value)\n            after = getattr(self, name, _NULL)\n            if _check_field_equality(type(self), name, before, after):\n                return None\n            signal.emit(after, before)\n")], set()),
    ("same-setattr-finally", D, [(SA, "            signal = get_signal(group, name)\n            if signal is None or len(signal) == 0:\n                return super_setattr(self, name, value)\n            before = getattr(self, name, _NULL)\n            try:\n                super_setattr(self, name, value)\n            finally:\n                after = getattr(self, name, _NULL)\n                if not _check_field_equality(type(self), name, before, after):\n                    signal.emit(after, before)\n")], set()),
    ("same-exit-early", D, [(EX, "        new: Any = getattr(self.obj, self.field, _NULL)\n        prev = self._prev\n        same = _check_field_equality(type(self.obj), self.field, prev, new)\n        if same:\n            return\n        self.signal.emit(new, prev)\n")], set()),
    ("same-get-field", D, [(GS, "    aliases = group._psygnal_aliases\n    sig_name = aliases[name] if name in aliases else name\n    if sig_name is not None and sig_name in group:\n        return group[sig_name]\n    return None\n")], set()),
    ("same-eq-get", D, [("    are_equal = eq_map.setdefault(name, operator.eq)\n", "    are_equal = eq_map.get(name, operator.eq)\n    eq_map[name] = are_equal\n")], set()),
    ("same-eq-loop", D, [("        return bool(are_equal(after, before))\n    except", "        equal = are_equal(after, before)\n        return bool(equal)\n    except")], set()),
    # C34
    ("ev-one-type", D, [("signals[sig_name] = sig = Signal(field_type, field_type)", "signals[sig_name] = sig = Signal(field_type)")], E34),
    ("ev-key-name", D, [("signals[sig_name] = sig = Signal", "signals[name] = sig = Signal")], E34),
    ("ev-none-break", D, [("        if sig_name is None:\n            continue\n", "        if sig_name is None:\n            break\n")], E34),
    ("ev-alias-falsy", D, [("        if sig_name is None:\n            continue\n", "        sig_name = sig_name or name\n")], E34),
    ("ev-transform-unrecorded", D, [("_signal_aliases[name] = sig_name = transform(name)", "sig_name = transform(name)")], E34),
    ("ev-class-unrecorded", D, [("_signal_aliases[name] = sig_name = signal_group_sig_aliases[name]", "sig_name = signal_group_sig_aliases[name]")], E34),
    ("ev-alias-unpassed", D, [("        group_name, (signal_group_class,), signals, signal_aliases=_signal_aliases\n", "        group_name, (signal_group_class,), signals\n")], E34),
    ("ev-alias-descr", D, [("                equality_operators=self._eqop,\n                signal_aliases=self._signal_aliases,\n", "                equality_operators=self._eqop,\n")], E34),
    ("ev-eqop-unpassed", D, [("                equality_operators=self._eqop,\n                signal_aliases=self._signal_aliases,\n", "                signal_aliases=self._signal_aliases,\n")], E34),
    ("ev-eqop-over", D, [("        else:\n            eq_map[name] = _pick_equality_operator(type_)\n", "        eq_map[name] = _pick_equality_operator(type_)\n")], E34),
    ("ev-classvar", DC, [("            if d_field._field_type is dataclasses._FIELD:  # type: ignore [attr-defined]\n                yield", "            if d_field._field_type is not dataclasses._FIELD_INITVAR:  # type: ignore [attr-defined]\n                yield")], E34),
    ("ev-frozen", DC, [("if not p_field.frozen or not exclude_frozen:", "if not p_field.frozen and exclude_frozen:")], {"C33"}),
    ("ev-frozen-flip", DC, [("if not p_field.frozen or not exclude_frozen:", "if p_field.frozen or not exclude_frozen:")], E34),
    ("ev-base-over", D, [("        if sig_name in signal_group_sig_names:\n            warnings.warn(\n                f\"Skip signal {sig_name!r}, was already defined by \"\n                f\"{signal_group_class}\",\n                UserWarning,\n                stacklevel=2,\n            )\n            continue\n", "")], E34),
    ("same-alias-get", D, [(AL, "        if name not in _signal_aliases:\n            if callable(transform):\n                _signal_aliases[name] = transform(name)\n            elif name in signal_group_sig_aliases:\n                _signal_aliases[name] = signal_group_sig_aliases[name]\n        sig_name = _signal_aliases.get(name, name)\n")], set()),
    ("same-alias-self", D, [(AL, "        if callable(transform):\n            sig_name = transform(name)\n        elif name in _signal_aliases:\n            sig_name = _signal_aliases[name]\n        elif name in signal_group_sig_aliases:\n            sig_name = signal_group_sig_aliases[name]\n        else:\n            sig_name = name\n        if sig_name != name:\n            _signal_aliases[name] = sig_name\n")], set()),
    ("same-eqop-get", D, [("            eq_map[name] = _equality_operators[name]\n        else:\n            eq_map[name] = _pick_equality_operator(type_)\n", "            op = _equality_operators[name]\n        else:\n            op = _pick_equality_operator(type_)\n        eq_map[name] = op\n")], set()),
    ("same-field-guard", DC, [("            if d_field._field_type is dataclasses._FIELD:  # type: ignore [attr-defined]\n                yield d_field.name, d_field.type\n", "            if d_field._field_type is not dataclasses._FIELD:  # type: ignore [attr-defined]\n                continue\n            yield d_field.name, d_field.type\n")], set()),
    ("same-frozen-guard", DC, [("                if not p_field.frozen or not exclude_frozen:\n                    yield field_name, p_field.annotation\n", "                if exclude_frozen and p_field.frozen:\n                    continue\n                yield field_name, p_field.annotation\n")], set()),
    # C35
    ("ev-id-owner", D, [(GET, GET.replace("id(instance)", "id(owner)"))], E35),
    ("ev-group-owner", D, [("= signal_group(instance)", "= signal_group(owner)")], E35),
    ("ev-no-cache", D, [("        if obj_id not in self._instance_map:\n", "        if True:\n")], E35),
    ("ev-no-evict", D, [(FIN, "                pass\n")], E35),
    ("ev-evict-owner", D, [(FIN, FIN.replace("(instance,", "(owner,"))], E35),
    ("ev-evict-none", D, [(FIN, FIN.replace("obj_id, None)", "None, None)"))], E35),
    ("ev-class-evict", D, [(OFIN, "")], E35),
    ("ev-first-owner", D, [("        type_id = id(owner)\n", "        type_id = id(type(self))\n")], E35),
    ("ev-class-none", D, [("        if instance is None:\n            return self\n\n        signal_group =", "        if instance is None:\n            return self._get_signal_group(owner)  # type: ignore\n\n        signal_group =")], E35),
    ("ev-cache-always", D, [("            if self._name and self._cache_on_instance:\n", "            if self._name:\n")], E35),
    ("ev-patch-again", D, [("        if getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, False):\n            return\n", '        if PATCHED_BY_PSYGNAL in owner.__dict__:\n            return\n')], set()),
    ("ev-patch-off", D, [("        if not self._patch_setattr:\n            return\n", "")], E35),
    ("same-get-try", D, [(GET, "        obj_id = id(instance)\n        group = self._instance_map.get(obj_id)\n        if group is None:\n            self._instance_map[obj_id] = group = signal_group(instance)\n")], set()),
    ("same-owner-local", D, [("        return self._signal_groups[type_id]\n", "        group_class = self._signal_groups[type_id]\n        return group_class\n")], set()),
    ("same-lazy-class", D, [("        signal_group = self._get_signal_group(owner)\n\n", ""), ("= signal_group(instance)", "= self._get_signal_group(owner)(instance)")], set()),
]
