"""Behaviour-preserving refactorings of functions that the other files leave alone."""
X = "_exceptions.py"
D = "_group_descriptor.py"
G = "_group.py"
W = "_weak_callback.py"
S = "_signal.py"
T = "_throttler.py"
M = "_evented_model.py"
DU = "_dataclass_utils.py"
DEC = "_evented_decorator.py"
CASES = []


def ok(name, f, *edits):
    CASES.append((f"same2-{name}", f, list(edits), set()))


ok("fmt-locals-generator", X, ("""    lines = []
    for name, value in f_locals.items():
        if name not in exclude:
            val_repr = repr(value)
            if len(val_repr) > 60:
                val_repr = val_repr[:60] + "..."  # pragma: no cover
            lines.append("{:>{}} = {}".format(name, name_width, val_repr))
    return "\\n".join(lines)
""", """    def _short(value: object) -> str:
        text = repr(value)
        return text if len(text) <= 60 else f"{text[:60]}..."

    return "\\n".join(
        f"{name:>{name_width}} = {_short(value)}"
        for name, value in f_locals.items()
        if name not in exclude
    )
"""))
ok("frame-nested-ifs", X, ("""            if flocals := except_frame.frame.f_locals:
                if not os.getenv("PSYGNAL_HIDE_LOCALS"):
                    msg += "\\n      Local variables:\\n"
                    msg += _fmt_locals(flocals)
""", """            flocals = except_frame.frame.f_locals
            if flocals and not os.getenv("PSYGNAL_HIDE_LOCALS"):
                msg += "\\n      Local variables:\\n" + _fmt_locals(flocals)
"""))
ok("eq-map-default", D, ("""    if hasattr(cls, _EQ_OPERATOR_NAME):
        return cast(dict, getattr(cls, _EQ_OPERATOR_NAME))
    else:
        return _EQ_OPERATORS.setdefault(cls, {})
""", """    found = getattr(cls, _EQ_OPERATOR_NAME, _NULL)
    if found is not _NULL:
        return cast(dict, found)
    return _EQ_OPERATORS.setdefault(cls, {})
"""))
ok("namespace-hasattr", D, ("    return getattr(obj, PSYGNAL_GROUP_NAME, None)\n", """    if hasattr(obj, PSYGNAL_GROUP_NAME):
        return getattr(obj, PSYGNAL_GROUP_NAME)
    return None
"""))
ok("is-evented-any", D, ("    return hasattr(obj, PSYGNAL_GROUP_NAME) or hasattr(obj, PATCHED_BY_PSYGNAL)\n",
   "    return any(hasattr(obj, a) for a in (PSYGNAL_GROUP_NAME, PATCHED_BY_PSYGNAL))\n"))
ok("setattr-if-else", D, ("""            if signal is None or len(signal) < 1:
                return super_setattr(self, name, value)

            with _changes_emitted(self, name, signal):
                super_setattr(self, name, value)
""", """            if signal is not None and len(signal) > 0:
                with _changes_emitted(self, name, signal):
                    super_setattr(self, name, value)
            else:
                super_setattr(self, name, value)
"""))
ok("setattr-lookup-branches", D, ("""        get_signal: Callable[[SignalGroup, str], SignalInstance | None] = (
            get_signal_from_field if with_aliases else SignalGroup.__getitem__
        )
""", """        if with_aliases:
            get_signal = get_signal_from_field
        else:
            get_signal = SignalGroup.__getitem__  # type: ignore
"""))
ok("setattr-inner-ifs", D, ("    return _inner(super_setattr) if super_setattr else _inner\n", """    if super_setattr is None:
        return _inner
    return _inner(super_setattr)
"""))
ok("changes-emitted-local", D, ("""        if not _check_field_equality(type(self.obj), self.field, self._prev, new):
            self.signal.emit(new, self._prev)
""", """        prev = self._prev
        if _check_field_equality(type(self.obj), self.field, prev, new):
            return
        self.signal.emit(new, prev)
"""))
ok("signal-from-field", D, ("""    sig_name = group._psygnal_aliases.get(name, name)
    if sig_name is None or sig_name not in group:
        return None
    return group[sig_name]
""", """    aliases = group._psygnal_aliases
    sig_name = aliases[name] if name in aliases else name
    return group[sig_name] if sig_name is not None and sig_name in group else None
"""))
ok("relay-direct-kwargs", G, ("""            for sig in self._signals.values():
                sig.connect(
                    slot,
                    check_nargs=check_nargs,
                    check_types=check_types,
                    unique=unique,
                    max_args=max_args,
                )
            return slot
""", """            options: dict[str, Any] = {
                "check_nargs": check_nargs,
                "check_types": check_types,
                "unique": unique,
                "max_args": max_args,
            }
            for name in self._signals:
                self._signals[name].connect(slot, **options)
            return slot
"""))
ok("relay-slot-helper", G, ("""        if emitter := Signal.current_emitter():
            info = EmissionInfo(emitter, args)
            if self._is_paused:
                self._args_queue.append((info,))
                return
            self._run_emit_loop((info,))
""", """        emitter = Signal.current_emitter()
        if not emitter:
            return
        self._relay_info((EmissionInfo(emitter, args),))

    def _relay_info(self, info: tuple[EmissionInfo]) -> None:
        if not self._is_paused:
            self._run_emit_loop(info)
        else:
            self._args_queue.append(info)
"""))
ok("relay-block-skip", G, ("""            if name in exclude or sig in exclude:
                continue
            sig.block()
""", """            if not (name in exclude or sig in exclude):
                sig.block()
"""))
ok("relay-unblock-local", G, ("""            if not self._sig_was_blocked.pop(name, False):
                sig.unblock()
""", """            was_blocked = self._sig_was_blocked.pop(name, False)
            if was_blocked:
                continue
            sig.unblock()
"""))
ok("relay-blocked-context", G, ("        return _SignalBlocker(self, exclude=exclude)\n", """        blocker: AbstractContextManager[None] = _SignalBlocker(self, exclude)
        return blocker
"""))
ok("relay-getstate-spread", G, ("""        state = super().__getstate__()
        state["_signals"] = dict(self._signals)
        state["_sig_was_blocked"] = dict(self._sig_was_blocked)
        return state
""", """        return {
            **super().__getstate__(),
            "_signals": {k: v for k, v in self._signals.items()},
            "_sig_was_blocked": self._sig_was_blocked.copy(),
        }
"""))
ok("relay-disconnect-ors", G, ("""            if slot is not None and slot in sig:
                missing_ok = True
            sig.disconnect(slot)
""", """            missing_ok = missing_ok or (slot is not None and slot in sig)
            sig.disconnect(slot)
"""))
ok("uniform-set", G, ("""    seen: set[tuple[str, ...]] = set()
    for s in signals:
        v = tuple(str(p.annotation) for p in s.signature.parameters.values())
        if seen and v not in seen:  # allow zero or one
            return False
        seen.add(v)
    return True
""", """    seen = {
        tuple(str(p.annotation) for p in s.signature.parameters.values())
        for s in signals
    }
    return len(seen) <= 1
"""))
ok("uniform-deprecated", G, ("""            stacklevel=2,
        )
        return cls._psygnal_uniform
""", """            stacklevel=2,
        )
        return cls.psygnals_uniform()
"""))
ok("group-deepcopy-owner", G, ("""        return type(self)(instance=memo.get(id(instance), instance))
""", """        key = id(instance)
        owner = memo[key] if key in memo else instance
        return self.__class__(instance=owner)
"""))
ok("group-connect-merged", G, ("""        if slot is None:
            return self._psygnal_relay.connect(
                thread=thread,
                check_nargs=check_nargs,
                check_types=check_types,
                unique=unique,
                max_args=max_args,
                on_ref_error=on_ref_error,
                priority=priority,
            )
        else:
            return self._psygnal_relay.connect(
                slot,
                thread=thread,
                check_nargs=check_nargs,
                check_types=check_types,
                unique=unique,
                max_args=max_args,
                on_ref_error=on_ref_error,
                priority=priority,
            )
""", """        options: Any = dict(
            thread=thread,
            check_nargs=check_nargs,
            check_types=check_types,
            unique=unique,
            max_args=max_args,
            on_ref_error=on_ref_error,
            priority=priority,
        )
        relay = self._psygnal_relay
        return relay.connect(**options) if slot is None else relay.connect(slot, **options)
"""))
ok("group-passthroughs-local", G, ("""        return self._psygnal_relay.disconnect(slot=slot, missing_ok=missing_ok)
""", """        self._psygnal_relay.disconnect(slot, missing_ok)
"""), ("""        return self._psygnal_relay.block(exclude=exclude)
""", """        relay = self._psygnal_relay
        relay.block(exclude)
"""), ("""        return self._psygnal_relay.resume(reducer=reducer, initial=initial)
""", """        return self._psygnal_relay.resume(reducer, initial)
"""))
ok("weak-init-locals", W, ("""        self._key: str = WeakCallback.object_key(obj)
        self._obj_module: str = getattr(obj, "__module__", None) or ""
        self._obj_qualname: str = getattr(obj, "__qualname__", "")
        self._object_repr: str = WeakCallback.object_repr(obj)
        self._max_args: int | None = max_args
        self._alive: bool = True
        self._on_ref_error: RefErrorChoice = on_ref_error

        self.priority: int = priority
""", """        self.priority: int = priority
        self._alive: bool = True
        self._max_args: int | None = max_args
        self._on_ref_error: RefErrorChoice = on_ref_error
        module = getattr(obj, "__module__", None)
        self._obj_module: str = module if module else ""
        self._obj_qualname: str = getattr(obj, "__qualname__", "")
        self._object_repr: str = self.object_repr(obj)
        self._key: str = self.object_key(obj)
"""))
ok("weak-call-flipped", W, ("""        if func is None:
            raise ReferenceError("callback is dead")
        if self._max_args is not None:
            args = args[: self._max_args]
        return func(*args, **kwds)
""", """        if func is not None:
            kept = args if self._max_args is None else args[: self._max_args]
            return func(*kept, **kwds)
        raise ReferenceError("callback is dead")
"""))
ok("weak-eq-flipped", W, ("""        if isinstance(other, WeakCallback):
            return self._key == other._key
        return NotImplemented
""", """        if not isinstance(other, WeakCallback):
            return NotImplemented
        return other._key == self._key
"""))
ok("kill-early-return", W, ("""        if wcb._alive:
            wcb._alive = False
            finalize(wcb)

    return _cb
""", """        if not wcb._alive:
            return
        wcb._alive = False
        finalize(wcb)

    return _cb
"""))
ok("key-parts", W, ("""            obj_name = f"{type_name}.{method_name}"
            # methods may share a name (lambdas, undecorated wrappers, ...)
            func = getattr(obj, "__func__", None)
            if func is not None:
                obj_name += f"[{hex(id(func))}]"
""", """            func = getattr(obj, "__func__", None)
            suffix = "" if func is None else f"[{hex(id(func))}]"
            obj_name = f"{type_name}.{method_name}{suffix}"
"""))
ok("key-self-local", W, ("""            obj_id = id(obj.__self__)
            owner_cls = type(obj.__self__)
            type_name""", """            owner = obj.__self__
            obj_id = id(owner)
            owner_cls = type(owner)
            type_name"""))
ok("repr-early", W, ("""        elif getattr(obj, "__qualname__", ""):
            return f"{module}.{obj.__qualname__}"
        elif getattr(type(obj), "__qualname__", ""):
            return f"{module}.{type(obj).__qualname__}"
""", """        if qualname := getattr(obj, "__qualname__", ""):
            return f"{module}.{qualname}"
        if qualname := getattr(type(obj), "__qualname__", ""):
            return f"{module}.{qualname}"
"""))
ok("strong-helper", W, ("""        if args:
            self._object_repr = _add_args_repr(self._object_repr, args)

    def cb(self, args: tuple[Any, ...] = ()) -> None:
        if self._max_args is not None:
            args = args[: self._max_args]
        self._f(*self._args, *args, **self._kwargs)
""", """        if args:
            self._object_repr = _add_args_repr(self._object_repr, args)

    def cb(self, args: tuple[Any, ...] = ()) -> None:
        call_args = (*self._args, *(args[: self._max_args] if self._max_args is not None else args))
        self._f(*call_args, **self._kwargs)
"""))
ok("strong-state-loop", W, ("        return {k: getattr(self, k) for k in atr}\n", """        state: dict[str, Any] = {}
        for name in atr:
            state[name] = getattr(self, name)
        return state
"""))
ok("weak-function-kwargs", W, ("""        super().__init__(obj, max_args, on_ref_error, priority)
        self._f = self._try_ref(obj, finalize)
        self._args = args
        self._kwargs = kwargs or {}
""", """        super().__init__(
            obj, max_args=max_args, on_ref_error=on_ref_error, priority=priority
        )
        self._args = args
        self._kwargs = {} if kwargs is None else dict(kwargs)
        self._f = self._try_ref(obj, finalize=finalize)
"""))
ok("weak-method-local-self", W, ("""        self._obj_ref = self._try_ref(obj.__self__, finalize)
        self._func_ref = self._try_ref(obj.__func__, finalize)
        self._args = args
""", """        func, owner = obj.__func__, obj.__self__
        self._obj_ref = self._try_ref(owner, finalize)
        self._func_ref = self._try_ref(func, finalize)
        self._args = args
"""))
ok("weak-method-deref-none", W, ("""        if obj is None or func is None:
            return None
        method = cast(MethodType, func.__get__(obj))
""", """        if not (obj is not None and func is not None):
            return None
        method = cast(MethodType, func.__get__(obj))
"""))
ok("weak-builtin-cb", W, ("""        if self._max_args is None:
            func(*self._args, *args)
        else:
            func(*self._args, *args[: self._max_args])
""", """        if (limit := self._max_args) is not None:
            args = args[:limit]
        func(*self._args, *args)
"""))
ok("weak-setattr-value", W, ("""        if self._max_args is not None:
            args = args[: self._max_args]
        setattr(obj, self._attr, args[0] if len(args) == 1 else args)
""", """        if self._max_args is not None:
            args = args[: self._max_args]
        value: Any = args
        if len(args) == 1:
            (value,) = args
        setattr(obj, self._attr, value)
"""))
ok("weak-setitem-value", W, ("        obj[self._itemkey] = args[0] if len(args) == 1 else args\n", """        if len(args) == 1:
            obj[self._itemkey] = args[0]
        else:
            obj[self._itemkey] = args
"""))
ok("weak-setitem-dunder", W, ("        obj[self._itemkey] = args[0] if len(args) == 1 else args\n",
   "        obj.__setitem__(self._itemkey, args[0] if len(args) == 1 else args)\n"))
ok("weak-setattr-key", W, ("""        self._key += f".__setattr__({attr!r})"
""", """        self._key = self._key + ".__setattr__(" + repr(attr) + ")"
"""))
