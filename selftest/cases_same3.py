"""More behaviour-preserving refactorings of functions that the other files leave alone."""
from cases_same2 import D, DU, G, M, S, T, W, X  # noqa: F401
EL = "containers/_evented_list.py"
ED = "containers/_evented_dict.py"
ES = "containers/_evented_set.py"
SEL = "containers/_selection.py"
SL = "containers/_selectable_evented_list.py"
CASES = []


def ok(name, f, *edits):
    CASES.append((f"same3-{name}", f, list(edits), set()))


ok("frozen-or", DU, ("""    cfg = getattr(cls, "__config__", None)
    if cfg is not None and getattr(cfg, "allow_mutation", None) is False:
        return True

    # pydantic v2
    cfg = getattr(cls, "model_config", None)
    if cfg is not None and cfg.get("frozen"):
        return True

    # attrs
    if getattr(cls.__setattr__, "__name__", None) == "_frozen_setattrs":
        return True
""", """    v1_config = getattr(cls, "__config__", None)
    v2_config = getattr(cls, "model_config", None)
    if (
        (v1_config is not None and getattr(v1_config, "allow_mutation", None) is False)
        or (v2_config is not None and v2_config.get("frozen"))
        or getattr(cls.__setattr__, "__name__", None) == "_frozen_setattrs"  # attrs
    ):
        return True
"""))
ok("frozen-struct-return", DU, ("""    if cfg is not None:  # pragma: no cover
        # this will be covered in msgspec > 0.13.1
        return bool(getattr(cfg, "frozen", False))

    return False
""", """    return cfg is not None and bool(getattr(cfg, "frozen", False))
"""))
ok("struct-check", DU, ("""    return msgspec is not None and issubclass(cls, msgspec.Struct)
""", """    if msgspec is None:
        return False
    return issubclass(cls, msgspec.Struct)
"""))
ok("discard-suppress", S, ("""        try:
            self._remove_slot(callback)
        except ValueError:
            if not missing_ok:
                raise
""", """        if not missing_ok:
            self._remove_slot(callback)
            return
        with suppress(ValueError):
            self._remove_slot(callback)
"""))
ok("remove-slot-order", S, ("""        if slot == "all":
            self._slots.clear()
        elif isinstance(slot, int):
            self._slots.pop(slot)
        else:
            self._slots.remove(cast("WeakCallback", slot))
""", """        if isinstance(slot, int):
            del self._slots[slot]
        elif slot == "all":
            del self._slots[:]
        else:
            del self._slots[self._slots.index(cast("WeakCallback", slot))]
"""))
ok("paused-kwargs", S, ("        return _SignalPauser(self, reducer, initial)\n",
   "        return _SignalPauser(self, reducer=reducer, initial=initial)\n"))
ok("stub-sig-flags", S, ("""    if (
        type(getattr(obj, "__self__", None)) is SignalInstance
        and getattr(obj, "__name__", None) == "emit"
    ) or type(obj) is SignalInstance:
""", """    is_emit = getattr(obj, "__name__", None) == "emit" and (
        type(getattr(obj, "__self__", None)) is SignalInstance
    )
    if is_emit or type(obj) is SignalInstance:
"""))
ok("posargs-collections", S, ("""    required = 0
    optional = 0
    posargs_unlimited = False
    _pos_required = {Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD}
    for param in sig.parameters.values():
        if param.kind in _pos_required:
            if param.default is Parameter.empty:
                required += 1
            else:
                optional += 1
        elif param.kind is Parameter.VAR_POSITIONAL:
            posargs_unlimited = True
""", """    required = 0
    total = 0
    posargs_unlimited = False
    for param in sig.parameters.values():
        if param.kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD):
            total += 1
            required += param.default is Parameter.empty
        elif param.kind is Parameter.VAR_POSITIONAL:
            posargs_unlimited = True
"""), ("    return (required, None if posargs_unlimited else required + optional)\n", """    if posargs_unlimited:
        return (required, None)
    return (required, total)
"""))
ok("subclass-any-loop", S, ("""        return any(issubclass(i, right) for i in get_args(left))
""", """        for member in get_args(left):
            if issubclass(member, right):
                return True
        return False
"""))
ok("types-match-nested", S, ("""        if f_anno is fsig.empty:
            # if function parameter is not type annotated, allow it.
            continue

        if isinstance(f_anno, str):
            if func_hints is None:
                func_hints = get_type_hints(function)
            f_anno = func_hints.get(f_param.name)

        if not _is_subclass(f_anno, spec_param.annotation):
            return False
""", """        # if function parameter is not type annotated, allow it.
        if f_anno is not fsig.empty:
            if isinstance(f_anno, str):
                func_hints = func_hints or get_type_hints(function)
                f_anno = func_hints.get(f_param.name)
            if not _is_subclass(f_anno, spec_param.annotation):
                return False
"""))
ok("qt-guess-order", S, ("""    type_ = type(obj)
    if "pyqtBoundSignal" in type_.__name__:
        return cast("str", obj.signal)
    qualname = getattr(obj, "__qualname__", "")
    if qualname == "pyqtBoundSignal.emit":
        return cast("str", obj.__self__.signal)
""", """    type_ = type(obj)
    type_name = type_.__name__
    qualname = getattr(obj, "__qualname__", "")
    if "pyqtBoundSignal" in type_name:
        return cast("str", obj.signal)
    if qualname == "pyqtBoundSignal.emit":
        return cast("str", obj.__self__.signal)
"""))
ok("cache-try", S, ("""        with suppress(TypeError):
            weakref.finalize(instance, self._signal_instance_cache.pop, obj_id, None)
""", """        try:
            weakref.finalize(instance, self._signal_instance_cache.pop, obj_id, None)
        except TypeError:
            pass
"""))
ok("throttle-init-wraps", T, ("""        self.__module__: str = getattr(func, "__module__", "")
        self.__name__: str = getattr(func, "__name__", "")
        self.__qualname__: str = getattr(func, "__qualname__", "")
        self.__doc__: str | None = getattr(func, "__doc__", None)
        self.__annotations__: dict[str, Any] = getattr(func, "__annotations__", {})
""", """        for attr in ("__module__", "__name__", "__qualname__"):
            setattr(self, attr, getattr(func, attr, ""))
        self.__doc__: str | None = getattr(func, "__doc__", None)
        self.__annotations__: dict[str, Any] = getattr(func, "__annotations__", {})
"""))
ok("throttle-record", T, ("""        self._has_pending = True
        self._args = args
        self._kwargs = kwargs

        if not self._timer.is_alive():
            if self._policy == "leading":
                self._actually_call()
            else:
                self._start_timer()
""", """        self._args, self._kwargs, self._has_pending = args, kwargs, True
        if self._timer.is_alive():
            return
        invoke = self._actually_call if self._policy == "leading" else self._start_timer
        invoke()
"""))
ok("throttle-call-if", T, ("""        if self._has_pending:
            self._actually_call()

""", """        if not self._has_pending:
            return
        self._actually_call()

"""))
ok("debounce-leading", T, ("""        if not self._timer.is_alive() and self._policy == "leading":
            self._actually_call()
        self._start_timer()
""", """        idle = not self._timer.is_alive()
        if idle and self._policy == "leading":
            self._actually_call()
        self._start_timer()
"""))
ok("get-defaults-helper", M, ("""            d = v.get_default()
            if (
                d is None
                and isinstance(v.annotation, type)
                and issubclass(v.annotation, pydantic.BaseModel)
            ):
                d = _get_defaults(v.annotation)  # pragma: no cover
            dflt[k] = d
        return dflt

    def _get_config(cls: pydantic.BaseModel)""", """            d, hint = v.get_default(), v.annotation
            if d is None and isinstance(hint, type):
                if issubclass(hint, pydantic.BaseModel):
                    d = _get_defaults(hint)  # pragma: no cover
            dflt[k] = d
        return dflt

    def _get_config(cls: pydantic.BaseModel)"""))
ok("super-setattr-get", M, ("""        if name in self.__property_setters__:
            self.__property_setters__[name].fset(self, value)  # type: ignore[misc]
        elif name == "_events":
            # pydantic v2 prohibits shadowing class vars, on instances
            object.__setattr__(self, name, value)
        else:
            super().__setattr__(name, value)
""", """        if name in self.__property_setters__:
            setter = self.__property_setters__[name]
            setter.fset(self, value)  # type: ignore[misc]
            return
        if name == "_events":
            # pydantic v2 prohibits shadowing class vars, on instances
            object.__setattr__(self, name, value)
            return
        super().__setattr__(name, value)
"""))
ok("setattr-no-deps-flip", M, ("""        old_value = getattr(self, name, object())
        self._super_setattr_(name, value)
        new_value = getattr(self, name)  # may have been converted by pydantic
        if not _check_field_equality(type(self), name, new_value, old_value):
            self._events[name](new_value)
""", """        before = getattr(self, name, object())
        self._super_setattr_(name, value)
        after = getattr(self, name)  # may have been converted by pydantic
        if _check_field_equality(type(self), name, after, before):
            return
        self._events[name].emit(after)
"""))
ok("impl-setdefault", M, ("""        self._primary_changes.add(name)
        if name not in self._changes_queue:
            self._changes_queue[name] = getattr(self, name, object())

        for dep in deps_with_callbacks:
            if dep not in self._changes_queue:
                self._changes_queue[dep] = getattr(self, dep, object())
        self._super_setattr_(name, value)
""", """        self._primary_changes.add(name)
        queue = self._changes_queue
        for attr in (name, *deps_with_callbacks):
            if attr not in queue:
                queue[attr] = getattr(self, attr, object())
        self._super_setattr_(name, value)
"""))
ok("delayer-local", M, ("""        self._target._delay_check_semaphore -= 1
        self._target._check_if_values_changed_and_emit_if_needed()
""", """        target = self._target
        target._delay_check_semaphore = target._delay_check_semaphore - 1
        target._check_if_values_changed_and_emit_if_needed()
"""))
ok("dict-setitem-flip", ED, ("""        if key not in self._dict:
            self.events.adding.emit(key)
            super().__setitem__(key, value)
            self.events.added.emit(key, value)
        else:
            old_value = self._dict[key]
            if value is not old_value:
                self.events.changing.emit(key)
                super().__setitem__(key, value)
                self.events.changed.emit(key, old_value, value)
""", """        events = self.events
        if key in self._dict:
            old_value = self._dict[key]
            if value is old_value:
                return
            events.changing.emit(key)
            super().__setitem__(key, value)
            events.changed.emit(key, old_value, value)
            return
        events.adding.emit(key)
        super().__setitem__(key, value)
        events.added.emit(key, value)
"""))
ok("dict-init-branches", ED, ("""        self._basetypes: tuple[type[_V], ...] = (
            tuple(basetype) if isinstance(basetype, Sequence) else (basetype,)
        )
        self.update({} if data is None else data, **kwargs)
""", """        if isinstance(basetype, Sequence):
            self._basetypes: tuple[type[_V], ...] = tuple(basetype)
        else:
            self._basetypes = (basetype,)
        if data is None:
            self.update(**kwargs)
        else:
            self.update(data, **kwargs)
"""))
ok("dict-typecheck-early", ED, ("""        if self._basetypes and not any(isinstance(value, t) for t in self._basetypes):
            raise TypeError(
                f"Cannot add object with type {type(value)} to TypedDict expecting"
                f"type {self._basetypes}"
            )
        return value
""", """        if not self._basetypes or isinstance(value, self._basetypes):
            return value
        raise TypeError(
            f"Cannot add object with type {type(value)} to TypedDict expecting"
            f"type {self._basetypes}"
        )
"""))
ok("dict-delitem-pop", ED, ("""        item = self._dict[key]
        self.events.removing.emit(key)
        super().__delitem__(key)
        self.events.removed.emit(key, item)
""", """        removed_value = self[key]
        events = self.events
        events.removing.emit(key)
        super().__delitem__(key)
        events.removed.emit(key, removed_value)
"""))
ok("set-symdiff-lists", ES, ("""        other = dict.fromkeys(__s)
        a = chain(
            (i for i in other if i not in self), (i for i in self if i not in other)
        )
        return self.__class__(a)
""", """        other = dict.fromkeys(__s)
        gained = [i for i in other if i not in self]
        kept = [i for i in self if i not in other]
        return self.__class__(gained + kept)
"""))
ok("set-symdiff-if", ES, ("""        for i in tuple(dict.fromkeys(__s)):
            self.discard(i) if i in self else self.add(i)
""", """        for i in list(dict.fromkeys(__s)):
            if i not in self:
                self.add(i)
            else:
                self.discard(i)
"""))
ok("set-hooks-if", ES, ("""        return BAIL if item in self else item
""", """        if item in self:
            return BAIL
        return item
"""), ("""        return BAIL if len(self) == 0 else tuple(self)
""", """        return tuple(self) if len(self) else BAIL
"""))
ok("selection-active-if", SEL, ("""        self._active = value
        self.clear() if value is None else self.select_only(value)
        self._current = value
        self.events.active.emit(value)
""", """        self._active = value
        if value is not None:
            self.select_only(value)
        else:
            self.clear()
        self._current = value
        self.events.active.emit(value)
"""))
ok("selection-update-unpack", SEL, ("""        if len(self) == 1:
            self.active = next(iter(self))
        elif self._active is not None:
            self._active = None
            self.events.active.emit(None)
""", """        if len(self) != 1:
            if self._active is None:
                return
            self._active = None
            self.events.active.emit(None)
            return
        self.active = next(iter(self))
"""))
ok("selection-current-flip", SEL, ("""        if value == self._current_:
            return
        self._current_ = value
        self.events._current.emit(value)
""", """        if not (value == self._current_):
            self._current_ = value
            self.events._current.emit(value)
"""))
ok("selection-setter-list", SEL, ("""        new_selection = tuple(new_selection)  # may be an iterator
        self._selection.intersection_update(new_selection)
        self._selection.update(new_selection)
""", """        wanted = list(new_selection)  # may be an iterator
        selection = self._selection
        selection.intersection_update(wanted)
        selection.update(wanted)
"""))
ok("selection-pre-add", SEL, ("""        if self._parent is not None and item not in self._parent:
            raise ValueError(
                "Cannot select an item that is not in the parent container."
            )
        return super()._pre_add_hook(item)
""", """        parent = self._parent
        if parent is None or item in parent:
            return super()._pre_add_hook(item)
        raise ValueError("Cannot select an item that is not in the parent container.")
"""))
ok("selectable-init-order", SL, ("""        self._activate_on_insert: bool = True
        self._reversing: bool = False
        super().__init__(data=data, hashable=hashable, child_events=child_events)
        self.events.removed.connect(self._on_item_removed)
        self.events.changed.connect(self._on_item_changed)
""", """        self._reversing: bool = False
        self._activate_on_insert: bool = True
        super().__init__(data, hashable=hashable, child_events=child_events)
        events = self.events
        events.changed.connect(self._on_item_changed)
        events.removed.connect(self._on_item_removed)
"""))
ok("selectable-changed", SL, ("""        if self._reversing:
            return  # items only trade places, none of them leaves the list
        for obj in old if isinstance(idx, slice) else (old,):
            if obj not in self:
                self.selection.discard(obj)
""", """        if not self._reversing:
            replaced = old if isinstance(idx, slice) else [old]
            for obj in [item for item in replaced if item not in self]:
                self.selection.discard(obj)
"""))
ok("move-plan-normalised", EL, ("""        d_inc = 0
        popped: list[int] = []
        for i, src in enumerate(to_move):
            if src != dest_index:
                # we need to decrement the src_i by 1 for each time we have
                # previously pulled items out from in front of the src_i
                src -= sum(x <= src for x in popped)
""", """        d_inc = 0
        popped: list[int] = []
        for i, source in enumerate(to_move):
            src = source
            if src != dest_index:
                # we need to decrement the src_i by 1 for each time we have
                # previously pulled items out from in front of the src_i
                src -= len([x for x in popped if x <= src])
"""))
ok("child-connect-local", EL, ("""        for emitter in iter_signal_instances(child):
            emitter.connect(self._reemit_child_event)
""", """        callback = self._reemit_child_event
        for emitter in list(iter_signal_instances(child)):
            emitter.connect(callback)
"""))
CASES += [
    ("C27-changed-selected-kept", SL, [("""        for obj in old if isinstance(idx, slice) else (old,):
            if obj not in self:
                self.selection.discard(obj)
""", """        gone = [o for o in old if o] if isinstance(idx, slice) else [old]
        for obj in gone:
            if obj not in self:
                self.selection.discard(obj)
""")], {"C27"}),
    ("C27-changed-active-kept", SL, [("""            if obj not in self:
                self.selection.discard(obj)
""", """            if obj not in self and obj is not self.selection.active:
                self.selection.discard(obj)
""")], {"C27"}),
    ("C11-del-index-off", S, [("""            self._slots.remove(cast("WeakCallback", slot))
""", """            del self._slots[self._slots.index(cast("WeakCallback", slot)) - 1]
""")], {"C11", "C13"}),
    ("C11-del-all-but-first", S, [("""            self._slots.clear()
        elif isinstance(slot, int)""", """            del self._slots[1:]
        elif isinstance(slot, int)""")], {"C11", "C17"}),
]

# -- inherited patches (C31.inherit)
_PATCH = """        setattr(
            _setattr_and_emit_, PATCHED_BY_PSYGNAL, (*patched_for, signal_group_name)
        )
"""
_GET = "        patched_for = getattr(super_setattr, PATCHED_BY_PSYGNAL, ())\n"
ok("patched-frozenset", D, (_PATCH, "        setattr(\n            _setattr_and_emit_, PATCHED_BY_PSYGNAL, "
   "patched_for | {signal_group_name}\n        )\n"),
   (_GET, "        patched_for = getattr(super_setattr, PATCHED_BY_PSYGNAL, frozenset())\n"))
ok("patched-concat", D, (_PATCH, "        names = patched_for + (signal_group_name,)\n"
   "        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, names)\n"))
ok("patched-given-aliases", D, ("        self._do_patch_setattr(owner)\n", "        self._do_patch_setattr(owner, True)\n"))
CASES.append(("bad3-patched-flag", D, [(_PATCH, "        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, True)\n"),
   (_GET, ""), ("        if signal_group_name in patched_for:\n",
                "        if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):\n")], {"C31"}))
CASES.append(("bad3-patched-own-aliases", D, [("        self._do_patch_setattr(owner)\n",
   "        self._do_patch_setattr(owner, with_aliases=bool(Group._psygnal_aliases))\n")], {"C31"}))

# -- uniform groups (C18.strict)
_UNI = """    seen: set[tuple[str, ...]] = set()
    for s in signals:
        v = tuple(str(p.annotation) for p in s.signature.parameters.values())
        if seen and v not in seen:  # allow zero or one
            return False
        seen.add(v)
    return True
"""
ok("uniform-set", G, (_UNI, """    seen = {
        tuple(str(p.annotation) for p in s.signature.parameters.values())
        for s in signals
    }
    return len(seen) <= 1
"""))
ok("uniform-first", G, (_UNI, """    first: list[str] | None = None
    for s in signals:
        types = [str(p.annotation) for p in s.signature.parameters.values()]
        if first is None:
            first = types
        elif types != first:
            return False
    return True
"""))
ok("uniform-all", G, (_UNI, """    types = [
        tuple(str(p.annotation) for p in s.signature.parameters.values())
        for s in signals
    ]
    return all(t == types[0] for t in types)
"""))
ok("strict-order", G, ("""        cls._psygnal_uniform = _is_uniform(cls._psygnal_signals.values())
        if strict and not cls._psygnal_uniform:
            raise""", """        uniform = _is_uniform(list(cls._psygnal_signals.values()))
        cls._psygnal_uniform = uniform
        if not uniform and strict:
            raise"""))
for _n, _e in (("zip", """    seen: list[tuple[str, ...]] = []
    for s in signals:
        v = tuple(str(p.annotation) for p in s.signature.parameters.values())
        if any(a != b for o in seen for a, b in zip(o, v)):
            return False
        seen.append(v)
    return True
"""), ("last-two", """    prev = cur = None
    for s in signals:
        prev, cur = cur, [str(p.annotation) for p in s.signature.parameters.values()]
    return prev is None or prev == cur
""")):
    CASES.append((f"bad3-uniform-{_n}", G, [(_UNI, _e)], {"C18"}))
CASES.append(("bad3-strict-own", G, [("_is_uniform(cls._psygnal_signals.values())", "_is_uniform(_psygnal_signals.values())")], {"C18"}))
CASES.append(("bad3-strict-never", G, [("if strict and not cls._psygnal_uniform:", "if strict and not cls._psygnal_signals:")], {"C18"}))

# -- what is bound around setters and curried functions (C10)
_SETITEM = """            getattr(cb, "__name__", None) == "__setitem__"
            and len(args) < 2
            and not kwargs
"""
_SETATTR = "        if cb is setattr and len(args) < 3:\n"
_CURRY = """        if kwargs:
            cb_partial = partial(cb_partial, **kwargs)
"""
ok("bound-slices", W, (_SETITEM, """            getattr(cb, "__name__", None) == "__setitem__"
            and not kwargs
            and not args[1:]
"""), (_SETATTR, "        if cb is setattr and not args[2:]:\n"))
ok("bound-named", W, (_SETITEM, """            getattr(cb, "__name__", None) == "__setitem__"
            and not (kwargs or len(args) > 1)
"""), (_SETATTR, "        if cb is setattr and not len(args) > 2:\n"))
ok("curried-conditional", W, (_CURRY, """        cb_partial = partial(cb_partial, **kwargs) if kwargs else cb_partial
"""))
ok("curried-all-bound", W, (_CURRY + """        return weak_callback(
            cb_partial,
            *args,
""", """        return weak_callback(
            partial(cb_partial, *args, **(kwargs or {})),
"""))
for _n, _es in (("setitem-values", [(_SETITEM, _SETITEM.replace("            and len(args) < 2\n", ""))]),
                ("setitem-keywords", [(_SETITEM, _SETITEM.replace("            and not kwargs\n", ""))]),
                ("setattr-value", [(_SETATTR, "        if cb is setattr and len(args) < 4:\n")]),
                ("curried-keywords", [(_CURRY, "")])):
    CASES.append((f"bad3-bound-{_n}", W, _es, {"C10"}))
