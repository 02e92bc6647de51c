"""Cases for the proxy (C28), throttling (C29) and monitoring (C32) checks."""
P = "containers/_evented_proxy.py"
T = "_throttler.py"
U = "utils.py"
S = "_signal.py"
CASES = []


def bad(name, f, pid, *edits):
    CASES.append((f"{pid}-{name}", f, list(edits), {pid}))


def ok(name, f, *edits):
    CASES.append((f"misc-{name}", f, list(edits), set()))


SETATTR = """        before = getattr(self, name, _UNSET)
        super().__setattr__(name, value)
        if before is not (after := getattr(self, name, _UNSET)):
            self.events.attribute_set(name, after)
"""
SETITEM = """        try:
            before = self[key]
        except LookupError:  # e.g. a new key in a dict
            before = _UNSET
        super().__setitem__(key, value)
        if before is not (after := self[key]):
            self.events.item_set(key, after)
"""
EVENTS = """        obj_id = id(self)
        if obj_id not in _OBJ_CACHE:
            _OBJ_CACHE[obj_id] = ProxyEvents()
            finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))
        return _OBJ_CACHE[obj_id]

    def __setattr__"""
CEVENTS = """        obj_id = id(self)
        if obj_id not in _OBJ_CACHE:
            _OBJ_CACHE[obj_id] = CallableProxyEvents()
            finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))
        return _OBJ_CACHE[obj_id]  # type: ignore
"""
ISUB = """        self.events.in_place("sub", other)
        return super().__isub__(other)  # type: ignore
"""
CALL = """        self.events.called(args, kwargs)
        return self.__wrapped__(*args, **kwargs)
"""

# --- proxies
bad("given-value", P, "C28", ("self.events.attribute_set(name, after)", "self.events.attribute_set(name, value)"))
bad("item-given-value", P, "C28", ("self.events.item_set(key, after)", "self.events.item_set(key, value)"))
bad("always", P, "C28", (SETATTR, "        super().__setattr__(name, value)\n"
    "        self.events.attribute_set(name, getattr(self, name, _UNSET))\n"))
bad("set-twice", P, "C28", ("        super().__setitem__(key, value)\n",
    "        super().__setitem__(key, value)\n        self.__wrapped__[key] = value\n"))
bad("before-read-late", P, "C28", (SETATTR, """        super().__setattr__(name, value)
        before = getattr(self, name, _UNSET)
        if before is not (after := getattr(self, name, _UNSET)):
            self.events.attribute_set(name, after)
"""))
bad("new-key-refused", P, "C28", (SETITEM, """        before = self[key]
        super().__setitem__(key, value)
        if before is not (after := self[key]):
            self.events.item_set(key, after)
"""))
bad("only-keyerror", P, "C28", (ISUB, ISUB.replace('"sub"', '"add"')))
bad("inplace-twice", P, "C28", (ISUB, """        self.events.in_place("sub", other)
        super().__isub__(other)
        return super().__isub__(other)  # type: ignore
"""))
bad("inplace-other-op", P, "C28", (ISUB, ISUB.replace("__isub__", "__iadd__")))
bad("inplace-no-result", P, "C28", (ISUB, ISUB.replace("return ", "")))
bad("inplace-silent", P, "C28", (ISUB, ISUB.replace('        self.events.in_place("sub", other)\n', "")))
bad("call-drops-kwargs", P, "C28", ("return self.__wrapped__(*args, **kwargs)", "return self.__wrapped__(*args)"))
bad("call-reports-no-kwargs", P, "C28", ("self.events.called(args, kwargs)", "self.events.called(args, {})"))
bad("cache-by-target", P, "C28", (EVENTS, EVENTS.replace("obj_id = id(self)", "obj_id = id(self.__wrapped__)")))
bad("never-dropped", P, "C28", (EVENTS, EVENTS.replace(
    "            finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))\n", "")))
bad("dropped-with-target", P, "C28", (EVENTS, EVENTS.replace("finalize(self,", "finalize(self.__wrapped__,")))
bad("callable-plain-group", P, "C28", (CEVENTS, CEVENTS.replace("CallableProxyEvents()", "ProxyEvents()")))
bad("delete-attr-silent", P, "C28", ("        self.events.attribute_deleted(name)\n", "        pass\n"))
bad("delete-attr-first", P, "C28", ("        super().__delattr__(name)\n        self.events.attribute_deleted(name)\n",
    "        self.events.attribute_deleted(name)\n        super().__delattr__(name)\n"))
ok("proxy-no-walrus", P, (SETATTR, """        before = getattr(self, name, _UNSET)
        super().__setattr__(name, value)
        after = getattr(self, name, _UNSET)
        if after is before:
            return
        self.events.attribute_set.emit(name, after)
"""))
ok("proxy-helper", P, (SETATTR, """        before = self._peek(name)
        super().__setattr__(name, value)
        self._announce(name, before)

    def _peek(self, name):
        return getattr(self, name, _UNSET)

    def _announce(self, name, before):
        after = self._peek(name)
        changed = after is not before
        if changed:
            self.events.attribute_set(name, after)
"""))
ok("proxy-suppress", P, ("from weakref import finalize\n", "from contextlib import suppress\nfrom weakref import finalize\n"),
   (SETITEM, """        before = _UNSET
        with suppress(LookupError):  # e.g. a new key in a dict
            before = self[key]
        super().__setitem__(key, value)
        after = self[key]
        if before is not after:
            self.events.item_set(key, after)
"""))
ok("proxy-item-helper", P, (SETITEM, """        before = self._item_or_unset(key)
        super().__setitem__(key, value)
        after = self[key]
        if before is not after:
            self.events.item_set(key, after)

    def _item_or_unset(self, key):
        try:
            return self[key]
        except LookupError:
            return _UNSET
"""))
ok("proxy-inplace-helper", P, (ISUB, """        self._in_place("sub", other)
        return super().__isub__(other)  # type: ignore

    def _in_place(self, op, other):
        self.events.in_place.emit(op, other)
"""))
ok("proxy-inplace-local", P, (ISUB, """        events = self.events
        events.in_place("sub", other)
        result = super().__isub__(other)
        return result
"""))
ok("proxy-call-local", P, (CALL, """        events = self.events
        events.called.emit(args, kwargs)
        func = self.__wrapped__
        result = func(*args, **kwargs)
        return result
"""))
ok("proxy-cache-get", P, (EVENTS, EVENTS.replace("""        if obj_id not in _OBJ_CACHE:
            _OBJ_CACHE[obj_id] = ProxyEvents()
            finalize(self, partial(_OBJ_CACHE.pop, obj_id, None))
        return _OBJ_CACHE[obj_id]
""", """        events = _OBJ_CACHE.get(obj_id)
        if events is None:
            events = _OBJ_CACHE[obj_id] = ProxyEvents()
            finalize(self, _OBJ_CACHE.pop, obj_id, None)
        return events
""")))
ok("proxy-cache-helper", P, ("class EventedObjectProxy(", '''def _events_of(proxy, group_class):
    """Get the events of a proxy, created on first use."""
    key = id(proxy)
    if key not in _OBJ_CACHE:
        _OBJ_CACHE[key] = group_class()
        finalize(proxy, partial(_OBJ_CACHE.pop, key, None))
    return _OBJ_CACHE[key]


class EventedObjectProxy('''), (EVENTS, "        return _events_of(self, ProxyEvents)\n\n    def __setattr__"),
   (CEVENTS, "        return _events_of(self, CallableProxyEvents)\n"))

# --- throttling
ACT = """        self._has_pending = False
        self.__wrapped__(*self._args, **self._kwargs)
        self._start_timer()
"""
START = """        self._timer.cancel()
        self._timer = Timer(self._interval, self._call_if_has_pending)
        self._timer.start()
"""
CANCEL = """        self._has_pending = False
        self._timer.cancel()
        # the cancelled timer stays alive for a moment, but must not delay the next call
        self._timer = Timer(self._interval, self._call_if_has_pending)
"""
TCALL = """        self._has_pending = True
        self._args = args
        self._kwargs = kwargs

        if not self._timer.is_alive():
            if self._policy == "leading":
                self._actually_call()
            else:
                self._start_timer()
"""
DCALL = """        self._has_pending = True
        self._args = args
        self._kwargs = kwargs

        if not self._timer.is_alive() and self._policy == "leading":
            self._actually_call()
        self._start_timer()
"""
bad("first-args", T, "C29", (TCALL, TCALL.replace("        self._args = args\n        self._kwargs = kwargs\n",
    "        if not self._timer.is_alive():\n            self._args = args\n            self._kwargs = kwargs\n")))
bad("kwargs-kept", T, "C29", (TCALL, TCALL.replace("self._kwargs = kwargs", "self._kwargs.update(kwargs)")))
bad("no-wait-after-run", T, "C29", (ACT, ACT.replace("        self._start_timer()\n", "")))
bad("flush-always-runs", T, "C29", ("""        self._call_if_has_pending()

    def __call__""", """        self._actually_call()

    def __call__"""))
bad("cancel-keeps-pending", T, "C29", (CANCEL, CANCEL.replace("        self._has_pending = False\n", "")))
bad("cancel-keeps-timer", T, "C29", (CANCEL, CANCEL.replace("        self._timer.cancel()\n", "").replace(
    "        self._timer = Timer(self._interval, self._call_if_has_pending)\n", "")))
bad("cancel-runs", T, "C29", (CANCEL, "        self._call_if_has_pending()\n" + CANCEL))
bad("throttler-restarts", T, "C29", (TCALL, TCALL.replace("""            else:
                self._start_timer()
""", """                return
        self._start_timer()
""")))
bad("debouncer-waits-once", T, "C29", (DCALL, DCALL.replace("        self._start_timer()\n",
    "        if not self._timer.is_alive():\n            self._start_timer()\n")))
bad("edge-swapped", T, "C29", ('"leading" if leading else "trailing"\n        return Throttler', '"trailing" if leading else "leading"\n        return Throttler'))
bad("timeout-lost", T, "C29", ("return deco(func) if func is not None else deco\n",
    "return Throttler(func) if func is not None else deco\n"))
bad("old-timer-left", T, "C29", (START, START.replace("        self._timer.cancel()\n", "")))
bad("remembered-late", T, "C29", (TCALL, """        if not self._timer.is_alive():
            if self._policy == "leading":
                self._actually_call()
            else:
                self._start_timer()
        self._has_pending = True
        self._args = args
        self._kwargs = kwargs
"""))
ok("throttle-guard", T, (TCALL, """        self._has_pending = True
        self._args = args
        self._kwargs = kwargs

        if self._timer.is_alive():
            return
        run = self._actually_call if self._policy == "leading" else self._start_timer
        run()
"""), ("        if self._has_pending:\n            self._actually_call()\n",
       "        if not self._has_pending:\n            return\n        self._actually_call()\n"))
ok("throttle-remember-helper", T, (TCALL, TCALL.replace("""        self._has_pending = True
        self._args = args
        self._kwargs = kwargs
""", "        self._remember(args, kwargs)\n")), (DCALL, DCALL.replace("""        self._has_pending = True
        self._args = args
        self._kwargs = kwargs
""", "        self._remember(args, kwargs)\n")), ("    def _actually_call(self)", """    def _remember(self, args, kwargs) -> None:
        self._args, self._kwargs = args, kwargs
        self._has_pending = True

    def _actually_call(self)"""))
ok("throttle-locals", T, (ACT, """        args, kwargs = self._args, self._kwargs
        self._has_pending = False
        func = self.__wrapped__
        func(*args, **kwargs)
        self._start_timer()
"""), (START, """        self._timer.cancel()
        timer = Timer(self._interval, self._call_if_has_pending)
        self._timer = timer
        timer.start()
"""))
ok("throttle-new-timer", T, (START, """        self._timer.cancel()
        self._timer = self._new_timer()
        self._timer.start()

    def _new_timer(self) -> Timer:
        return Timer(self._interval, self._call_if_has_pending)
"""), (CANCEL, CANCEL.replace("Timer(self._interval, self._call_if_has_pending)", "self._new_timer()")))
ok("throttle-deco", T, ("    return deco(func) if func is not None else deco\n", """    if func is None:
        return deco
    return deco(func)
"""), ("""        policy: EmissionPolicy = "leading" if leading else "trailing"
        return Throttler(func, timeout, policy)
""", """        if leading:
            return Throttler(func, interval=timeout, policy="leading")
        return Throttler(func, interval=timeout, policy="trailing")
"""))
ok("debounce-nested", T, (DCALL, """        self._args = args
        self._kwargs = kwargs
        self._has_pending = True

        idle = not self._timer.is_alive()
        if idle and self._policy == "leading":
            self._actually_call()
        self._start_timer()
"""))
ok("throttle-start-in-finally-free", T, (DCALL, """        self._has_pending = True
        self._args = args
        self._kwargs = kwargs

        if self._policy == "leading":
            if not self._timer.is_alive():
                self._actually_call()
        self._start_timer()
"""))

# --- monitoring
DISC = "            disconnectors.add(partial(siginst.disconnect, siginst.connect(_report)))\n"
FIN = """    finally:
        if obj is None:
            SignalInstance._debug_hook = before
        else:
            for disconnector in disconnectors:
                disconnector()
"""
ITER = """            attr = getattr(obj, n)
            if isinstance(attr, SignalInstance):
                yield attr
            if isinstance(attr, SignalGroup):
                yield attr._psygnal_relay
"""
REP = """                def _report(*args: Any, signal: SignalInstance = siginst) -> None:
                    logger(EmissionInfo(signal, args))
"""
bad("late-binding", U, "C32", (REP, REP.replace("signal: SignalInstance = siginst", "").replace("*args: Any, )", "*args: Any)").replace("signal, args", "siginst, args")))
bad("hook-dropped", U, "C32", ("            SignalInstance._debug_hook = before\n", "            SignalInstance._debug_hook = None\n"))
bad("left-on-error", U, "C32", (FIN, FIN.replace("    finally:\n", "    except Exception:\n        raise\n    else:\n")))
bad("private-too", U, "C32", ('if not include_private_attrs and n.startswith("_")', 'if not include_private_attrs and n.startswith("__")'))
bad("public-dropped", U, "C32", ('if not include_private_attrs and n.startswith("_")', 'if not include_private_attrs or n.startswith("_")'))
bad("group-itself", U, "C32", ("            yield obj[sig]\n        return\n", "            yield obj[sig]\n"))
bad("relay-missed", U, "C32", ("            if isinstance(attr, SignalGroup):\n                yield attr._psygnal_relay\n", ""))
bad("only-first-disconnected", U, "C32", (FIN, FIN.replace("                disconnector()\n", "                disconnector()\n                break\n")))
bad("one-argument", U, "C32", (REP, REP.replace("EmissionInfo(signal, args)", "EmissionInfo(signal, args[:1])")))
bad("hook-when-blocked", S, "C32", ("""        if self._is_blocked:
            return

        if check_nargs:
            try:
                self.signature.bind(*args)""", """        self._call_debug_hook(args)
        if self._is_blocked:
            return

        if check_nargs:
            try:
                self.signature.bind(*args)"""), ("""        self._call_debug_hook(args)
        self._run_emit_loop(args)

    def""", """        self._run_emit_loop(args)

    def"""))
bad("hook-twice", S, "C32", ("""        self._call_debug_hook(args)
        self._run_emit_loop(args)

    def""", """        self._call_debug_hook(args)
        self._run_emit_loop(args)
        self._call_debug_hook(args)

    def"""))
bad("hook-not-on-resume", S, "C32", ("""            for args in args_queue:
                self._call_debug_hook(args)
""", """            for args in args_queue:
"""))
ok("monitor-list", U, ("disconnectors = set()", "disconnectors: list[Any] = []"), (DISC, DISC.replace(".add(", ".append(")))
ok("monitor-pairs", U, ("disconnectors = set()", "connected = []"), (DISC, """            siginst.connect(_report)
            connected.append((siginst, _report))
"""), (FIN, FIN.replace("""            for disconnector in disconnectors:
                disconnector()
""", """            for sig, slot in connected:
                sig.disconnect(slot)
""")))
ok("monitor-lambda", U, (DISC, """            slot = siginst.connect(_report)
            disconnectors.add(partial(siginst.disconnect, slot=slot))
"""))
ok("monitor-maker", U, ("@contextmanager\ndef monitor_events", '''def _make_report(signal: SignalInstance, logger: Any) -> Any:
    def _report(*args: Any) -> None:
        logger(EmissionInfo(signal, args))

    return _report


@contextmanager
def monitor_events'''), (REP, "                _report = _make_report(siginst, logger)\n"))
ok("monitor-iter-elif", U, (ITER, """            value = getattr(obj, n)
            if isinstance(value, SignalGroup):
                yield value._psygnal_relay
            elif isinstance(value, SignalInstance):
                yield value
"""))
ok("monitor-iter-names", U, ("""    for n in dir(obj):
        if not include_private_attrs and n.startswith("_"):
            continue
""", """    names = dir(obj)
    for n in names:
        private = n.startswith("_")
        if private and not include_private_attrs:
            continue
"""))
ok("monitor-split-finally", U, (FIN, """    finally:
        if obj is not None:
            while disconnectors:
                disconnectors.pop()()
        else:
            SignalInstance._debug_hook = before
"""))
ok("monitor-before-separate", U, ("        before, SignalInstance._debug_hook = SignalInstance._debug_hook, logger\n",
    "        before = SignalInstance._debug_hook\n        SignalInstance._debug_hook = logger\n"))
ok("hook-local", S, ("""        if SignalInstance._debug_hook is not None:
            from ._group import EmissionInfo

            SignalInstance._debug_hook(EmissionInfo(self, args))
""", """        hook = SignalInstance._debug_hook
        if hook is None:
            return
        from ._group import EmissionInfo

        hook(EmissionInfo(self, args))
"""))
ok("hook-deliver-helper", S, ("""            for args in args_queue:
                self._call_debug_hook(args)
                self._run_emit_loop(args)
""", """            for args in args_queue:
                self._deliver(args)
"""), ("""        self._call_debug_hook(args)
        self._run_emit_loop(args)

    def""", """        self._deliver(args)

    def _deliver(self, args: tuple[Any, ...]) -> None:
        self._call_debug_hook(args)
        self._run_emit_loop(args)

    def"""))
