M = "_evented_model.py"
E = {"C23"}
ND = """        if not _check_field_equality(type(self), name, new_value, old_value):
            self._events[name](new_value)
"""
EXIT = """    def __exit__(self, *_: Any, **__: Any) -> None:
        self._target._delay_check_semaphore -= 1
        self._target._check_if_values_changed_and_emit_if_needed()
"""
PRIM = """        for name in self._primary_changes:
            # primary changes should contains only fields
            # that are changed directly by assignment
            old_value = self._changes_queue[name]
            new_value = getattr(self, name)
            if not _check_field_equality(type(self), name, new_value, old_value):
                to_emit.append((name, new_value))
            self._changes_queue.pop(name)
"""
DEP = """        for name, old_value in self._changes_queue.items():
            # check if any of dependent properties changed
            new_value = getattr(self, name)
            if not _check_field_equality(type(self), name, new_value, old_value):
                to_emit.append((name, new_value))
"""
UPD = """        with self.events._psygnal_relay.paused():  # TODO: reduce?
            for key, value in values.items():
                field = getattr(self, key)
                if isinstance(field, EventedModel) and recurse:
                    field.update(value, recurse=recurse)
                else:
                    setattr(self, key, value)
"""
RST = """            if isinstance(value, EventedModel):
                cast("EventedModel", getattr(self, name)).reset()
            elif not model_config.get("frozen") and not model_fields[name].frozen:
                setattr(self, name, value)
"""
EQ = """            if not _check_field_equality(type(self), f_name, a, b):
                return False
        return True
"""
FLD = """            if not f.frozen:
                recursion = emission_map.get(n, default_strategy)
                signals[n] = Signal(f.annotation, reemission=recursion)
"""
INST = """        if (
            not cls.__field_dependents__
            and not cls.__property_setters__
            and hasattr(cls, "_setattr_no_dependants")
        ):
            # (a property setter may assign several fields, which emit together)
            cls._setattr_default = cls._setattr_no_dependants
        elif hasattr(cls, "_setattr_with_dependents"):
            cls._setattr_default = cls._setattr_with_dependents
"""
NOP = """            self._changes_queue.clear()
            self._primary_changes.clear()
            return
"""
SUP = """        if name in self.__property_setters__:
            self.__property_setters__[name].fset(self, value)  # type: ignore[misc]
        elif name == "_events":
            # pydantic v2 prohibits shadowing class vars, on instances
            object.__setattr__(self, name, value)
        else:
            super().__setattr__(name, value)
"""
CASES = [
    ("mod-emit-raw", M, [(ND, ND.replace("[name](new_value)", "[name](value)"))], E),
    ("mod-emit-identity", M, [(ND, ND.replace("not _check_field_equality(type(self), name, new_value, old_value)", "new_value is not old_value"))], E),
    ("mod-emit-none", M, [(ND, ND.replace("if not _check", "if _check"))], E),
    ("mod-exit-only-ok", M, [(EXIT, EXIT.replace("*_: Any, **__: Any", "t: Any = None, *_: Any").replace("        self._target._delay", "        if t is not None:\n            return\n        self._target._delay"))], E),
    ("mod-prim-kept", M, [("            self._changes_queue.pop(name)\n", "")], E),
    ("mod-prim-old", M, [(PRIM, PRIM.replace("to_emit.append((name, new_value))", "to_emit.append((name, old_value))"))], E),
    ("mod-dep-unchecked", M, [(DEP, DEP.replace("            if not _check_field_equality(type(self), name, new_value, old_value):\n    ", ""))], E),
    ("mod-dep-first", M, [(DEP, DEP.replace("to_emit.append((name, new_value))", "to_emit.append((name, new_value))\n                break"))], E),
    ("mod-dep-overwritten", M, [("            if dep not in self._changes_queue:\n                self._changes_queue[dep]", "            if True:\n                self._changes_queue[dep]")], E),
    ("mod-name-overwritten", M, [("        if name not in self._changes_queue:\n            self._changes_queue[name]", "        if True:\n            self._changes_queue[name]")], E),
    ("mod-nothing-kept", M, [(NOP, NOP.replace("            self._primary_changes.clear()\n", ""))], E),
    ("mod-done-kept", M, [("        self._changes_queue.clear()\n        self._primary_changes.clear()\n\n        with", "        self._changes_queue.clear()\n\n        with")], E),
    ("mod-impl-undelayed", M, [("        with ComparisonDelayer(self):\n            self._setattr_impl(name, value)", "        self._setattr_impl(name, value)\n        self._check_if_values_changed_and_emit_if_needed()")], E),
    ("mod-deps-unheard", M, [("            and not deps_with_callbacks  # no dependent properties with listeners\n", "")], E),
    ("mod-update-stored-outside", M, [(UPD, UPD.replace("        with self.events._psygnal_relay.paused():  # TODO: reduce?\n", "        if True:\n"))], E),
    ("mod-update-flat", M, [(UPD, UPD.replace("and recurse:", "and not recurse:"))], E),
    ("mod-update-recurse", M, [(UPD, UPD.replace(", recurse=recurse", ", recurse=False"))], E),
    ("mod-update-nested-set", M, [(UPD, UPD.replace("isinstance(field, EventedModel) and recurse", "isinstance(field, EventedModel) and not isinstance(value, dict)"))], E),
    ("mod-reset-frozen", M, [(RST, RST.replace(" and not model_fields[name].frozen", ""))], E),
    ("mod-reset-nested", M, [(RST, RST.replace('cast("EventedModel", getattr(self, name)).reset()', "setattr(self, name, value)"))], E),
    ("mod-reset-default", M, [(RST, RST.replace('cast("EventedModel", getattr(self, name)).reset()', "value.reset()"))], E),
    ("mod-eq-any", M, [(EQ, EQ.replace("return False\n        return True", "continue\n            return True\n        return False"))], E),
    ("mod-eq-self", M, [("            b = getattr(other, f_name)\n", "            b = getattr(self, f_name)\n")], E),
    ("mod-frozen-signal", M, [(FLD, FLD.replace("if not f.frozen:", "if f.frozen is not None:"))], E),
    ("mod-mutable-nosignal", M, [(FLD, FLD.replace("if not f.frozen:", "if not f.frozen and f.annotation:"))], E),
    ("mod-setter-nosignal", M, [("                signals[key] = Signal(object, reemission=recursion)", "                if recursion:\n                    signals[key] = Signal(object, reemission=recursion)")], E),
    ("mod-variant-swapped", M, [(INST, INST.replace("not cls.__field", "cls.__field"))], E),
    ("mod-deps-replaced", M, [("                deps.setdefault(field, set()).add(prop)", "                deps[field] = {prop}")], E),
    ("mod-deps-reversed", M, [("                deps.setdefault(field, set()).add(prop)", "                deps.setdefault(prop, set()).add(field)")], E),
    ("mod-guess-name", M, [("                        deps.setdefault(name, set()).add(prop)", "                        deps.setdefault(prop, set()).add(name)")], E),
    ("mod-setter-ignored", M, [(SUP, SUP.replace("if name in self.__property_setters__:", "if name in self.__property_setters__ and name in self.__eq_operators__:"))], E),
    ("mod-setattr-silent", M, [("            or name not in self._events\n", "            or name not in self.__eq_operators__\n")], E),
    ("mod-setters-at-once", M, [("            and not cls.__property_setters__\n", "")], E),
    ("mod-same-install-len", M, [("            not cls.__field_dependents__\n            and not cls.__property_setters__\n            and has", "            len(cls.__field_dependents__) + len(cls.__property_setters__) == 0\n            and has")], set()),
    # edits that keep the behaviour
    ("mod-same-helper", M, [(ND, "        self._emit_changed(name, new_value, old_value)\n\n    def _emit_changed(self, name: str, new: Any, old: Any) -> None:\n        equal = _check_field_equality(type(self), name, new, old)\n        if not equal:\n            self._events[name].emit(new)\n")], set()),
    ("mod-same-finally", M, [("        with ComparisonDelayer(self):\n            self._setattr_impl(name, value)", "        delay = ComparisonDelayer(self)\n        delay.__enter__()\n        try:\n            self._setattr_impl(name, value)\n        finally:\n            delay.__exit__(None, None, None)")], set()),
    ("mod-same-pop-first", M, [(PRIM, PRIM.replace("            self._changes_queue.pop(name)\n", "").replace("self._changes_queue[name]", "self._changes_queue.pop(name)"))], set()),
    ("mod-same-emit-method", M, [("                self._events[name](new_value)\n\n    def __setattr__", "                signal = self._events[name]\n                signal.emit(new_value)\n\n    def __setattr__")], set()),
    ("mod-same-update-order", M, [(UPD, UPD.replace("if isinstance(field, EventedModel) and recurse:\n                    field.update(value, recurse=recurse)\n                else:\n                    setattr(self, key, value)", "if not recurse or not isinstance(field, EventedModel):\n                    setattr(self, key, value)\n                    continue\n                field.update(value, recurse)"))], set()),
    ("mod-same-eq-all", M, [(EQ, "            same = _check_field_equality(type(self), f_name, a, b)\n            if same:\n                continue\n            return False\n        return True\n")], set()),
    ("mod-same-frozen", M, [(FLD, "            if f.frozen:\n                continue\n            strategy = emission_map.get(n, default_strategy)\n            signals[n] = Signal(f.annotation, reemission=strategy)\n")], set()),
    ("mod-same-install", M, [(INST, "        has_deps = bool(cls.__field_dependents__ or cls.__property_setters__)\n        if has_deps and hasattr(cls, \"_setattr_with_dependents\"):\n            cls._setattr_default = cls._setattr_with_dependents\n        elif hasattr(cls, \"_setattr_no_dependants\"):\n            cls._setattr_default = cls._setattr_no_dependants\n")], set()),
    ("mod-same-deps-loop", M, [("        deps_with_callbacks = {\n            dep_name\n            for dep_name in self.__field_dependents__.get(name, ())\n            if len(group[dep_name])\n        }\n", "        deps_with_callbacks = set()\n        for dep_name in self.__field_dependents__.get(name, ()):\n            if len(group[dep_name]):\n                deps_with_callbacks.add(dep_name)\n")], set()),
    ("mod-same-deps-get", M, [("                deps.setdefault(field, set()).add(prop)", "                if field not in deps:\n                    deps[field] = set()\n                deps[field].add(prop)")], set()),
    ("mod-same-reset", M, [(RST, "            if isinstance(value, EventedModel):\n                getattr(self, name).reset()\n                continue\n            if model_config.get(\"frozen\") or model_fields[name].frozen:\n                continue\n            setattr(self, name, value)\n")], set()),
]
