W = "_weak_callback.py"
S = "_signal.py"
SF_CB = """        if self._max_args is not None:
            args = args[: self._max_args]
        self._f(*self._args, *args, **self._kwargs)
"""
WF_CB = """        f = self._f()
        if f is None:
            raise ReferenceError("weakly-referenced object no longer exists")
        if self._max_args is not None:
            args = args[: self._max_args]
        f(*self._args, *args, **self._kwargs)
"""
WM_CB = """        if obj is None or func is None:
            raise ReferenceError("weakly-referenced object no longer exists")

        if self._max_args is not None:
            args = args[: self._max_args]
        func(obj, *self._args, *args, **self._kwargs)
"""
WM_DE = """        if obj is None or func is None:
            return None
        method = cast(MethodType, func.__get__(obj))
        if self._args or self._kwargs:
            return partial(method, *self._args, **self._kwargs)
        return method
"""
WB_CB = """        if self._max_args is None:
            func(*self._args, *args)
        else:
            func(*self._args, *args[: self._max_args])
"""
SETA = "        setattr(obj, self._attr, args[0] if len(args) == 1 else args)\n"
SETI = "        obj[self._itemkey] = args[0] if len(args) == 1 else args\n"
KILL = """    def _cb(_: weakref.ReferenceType) -> None:
        if wcb._alive:
            wcb._alive = False
            finalize(wcb)

    return _cb
"""
REF = "        try:\n            return weakref.ref(obj, _cb)\n"
POL = """            if self._on_ref_error == "raise":
                raise
            if self._on_ref_error == "warn":
"""
CALL = """        if self._max_args is not None:
            args = args[: self._max_args]
        return func(*args, **kwds)
"""
DISP = """    if isinstance(cb, partial):
        args = cb.args + args
        kwargs = cb.keywords
        cb = cb.func
"""
FWD = """            finalize=finalize,
            strong_func=strong_func,
            on_ref_error=on_ref_error,
            priority=priority,
"""
WMNEW = """        return WeakMethod(
            cb, max_args, args, kwargs, finalize, on_ref_error, priority=priority
        )
"""
C10, C12, C13 = {"C10"}, {"C12"}, {"C13"}
CASES = [
    ("wcb-partial-order", W, [("args = cb.args + args", "args = args + cb.args")], C10),
    ("wcb-partial-kw", W, [("        kwargs = cb.keywords\n", "")], C10),
    ("wcb-partial-max", W, [(SF_CB, SF_CB.replace("[: self._max_args]", "[: self._max_args - len(self._args)]"))], C10),
    ("wcb-sf-order", W, [(SF_CB, SF_CB.replace("*self._args, *args", "*args, *self._args"))], C10),
    ("wcb-sf-nokw", W, [(SF_CB, SF_CB.replace(", **self._kwargs", ""))], C10),
    ("wcb-sf-truthy-max", W, [(SF_CB, SF_CB.replace("self._max_args is not None", "self._max_args"))], C10),
    ("wcb-wm-max", W, [(WM_CB, WM_CB.replace("""        if self._max_args is not None:
            args = args[: self._max_args]
""", ""))], C10),
    ("wcb-wm-noself", W, [(WM_CB, WM_CB.replace("func(obj, *", "func(*"))], C10),
    ("wcb-wm-argsdrop", W, [(WM_CB, WM_CB.replace("*self._args, ", ""))], C10),
    ("wcb-wm-cut-all", W, [(WM_CB, WM_CB.replace("""            args = args[: self._max_args]
        func(obj, *self._args, *args, **self._kwargs)""", """            args = (*self._args, *args)[: self._max_args]
        func(obj, *args, **self._kwargs)"""))], C10),
    ("wcb-wb-off", W, [(WB_CB, WB_CB.replace("*args[: self._max_args]", "*args[: self._max_args or None]"))], C10),
    ("wcb-wb-twice", W, [(WB_CB, WB_CB + "            func(*self._args, *args[: self._max_args])\n")], C10),
    ("wcb-wb-name", W, [("self._func_name = obj.__name__", "self._func_name = obj.__qualname__")], C10),
    ("wcb-seta-tuple", W, [(SETA, SETA.replace("args[0] if len(args) == 1 else args", "args"))], C10),
    ("wcb-seta-first", W, [(SETA, SETA.replace("args[0] if len(args) == 1 else args", "args[0] if args else args"))], C10),
    ("wcb-seta-max", W, [("""        if self._max_args is not None:
            args = args[: self._max_args]
""" + SETA, SETA)], C10),
    ("wcb-seti-last", W, [(SETI, SETI.replace("args[0]", "args[-1]", 1))], {"C10"} if False else C10),
    ("wcb-seti-le", W, [(SETI, SETI.replace("== 1", "<= 2"))], C10),
    ("wcb-seti-key", W, [("key = args[0]\n", "key = args[-1]\n")], C10),
    ("wcb-de-sf", W, [("        if self._args or self._kwargs:\n            return partial(self._f", "        if self._args and self._kwargs:\n            return partial(self._f")], C10),
    ("wcb-de-wm", W, [(WM_DE, WM_DE.replace(", **self._kwargs", ""))], C10),
    ("wcb-de-wb", W, [("        if func is not None and self._args:\n            return partial(func, *self._args)\n", "")], C10),
    ("wcb-call-max", W, [(CALL, "        return func(*args, **kwds)\n")], C10),
    ("wcb-call-truthy", W, [(CALL, CALL.replace("self._max_args is not None", "self._max_args"))], C10),
    ("wcb-fwd-args", W, [("            cb_partial,\n            *args,\n", "            cb_partial,\n")], C10),
    ("wcb-fwd-prio", W, [(FWD, FWD.replace("            priority=priority,\n", ""))], C10),
    ("wcb-fwd-fin", W, [(FWD, FWD.replace("            finalize=finalize,\n", ""))], C10),
    ("wcb-prio-wm", W, [(WMNEW, WMNEW.replace(", priority=priority", ""))], C10),
    ("wcb-prio-seta", W, [("""            return WeakSetattr(
                obj, attr, max_args, finalize, on_ref_error, priority=priority
""", """            return WeakSetattr(
                obj, attr, max_args, finalize, on_ref_error
""")], C10),
    ("wcb-reuse", W, [("    if isinstance(cb, WeakCallback):\n        return cb\n", "    if isinstance(cb, WeakCallback):\n        return StrongFunction(cb.dereference(), max_args, args, None, priority=priority)\n")], C10),
    # ownership
    ("wcb-own-method", W, [("        self._func_ref = self._try_ref(obj.__func__, finalize)\n", "        self._func_ref = self._try_ref(obj.__func__, finalize)\n        self._slot = obj\n")], C12),
    ("wcb-own-method-lambda", W, [("        self._func_ref = self._try_ref(obj.__func__, finalize)\n", "        self._func_ref = self._try_ref(obj.__func__, finalize)\n        self._desc = lambda: obj.__name__\n")], C12),
    ("wcb-own-base", W, [("        self._key: str = WeakCallback.object_key(obj)\n", "        self._key: str = WeakCallback.object_key(obj)\n        self._orig = obj\n")], C12),
    ("wcb-own-wf", W, [("        self._f = self._try_ref(obj, finalize)\n", "        self._f = lambda: obj\n")], C12 | C13),
    ("wcb-own-strongcall", W, [("""        return WeakFunction(
            cb, max_args, args, kwargs, finalize, on_ref_error, priority=priority
        )

    raise""", """        return StrongFunction(cb, max_args, args, kwargs, priority=priority)

    raise""")], C12),
    ("wcb-own-setattr-args", W, [("        self._attr = attr\n", "        self._attr = attr\n        self._args = (obj, attr)\n")], C12),
    ("wcb-own-builtin", W, [("        self._func_name = obj.__name__\n", "        self._func_name = obj.__name__\n        self._func = obj\n")], C12),
    ("wcb-own-policy-warn", W, [(POL, POL.replace('== "warn"', '!= "raise"'))], C12),
    ("wcb-own-policy-raise", W, [(POL, POL.replace("                raise\n", "                pass\n"))], C12),
    ("wcb-own-strongfn", W, [("            if strong_func\n", "            if not strong_func\n")], C12),
    ("wcb-own-curry", W, [(FWD, FWD.replace("            strong_func=strong_func,\n", ""))], {"C12"} if False else set()),
    ("wcb-own-sig", S, [("        self._instance: Callable = self._instance_ref(instance)", "        self._instance: Callable = lambda: instance")], C12),
    # death
    ("wcb-dead-wf", W, [(WF_CB, WF_CB.replace("""        if f is None:
            raise ReferenceError("weakly-referenced object no longer exists")
""", """        if f is None:
            return
"""))], C13),
    ("wcb-dead-wm", W, [(WM_CB, WM_CB.replace("if obj is None or func is None", "if func is None"))], C13),
    ("wcb-dead-wmde", W, [(WM_DE, WM_DE.replace("if obj is None or func is None", "if func is None"))], C13),
    ("wcb-dead-wb", W, [("func = None if obj is None else getattr(obj, self._func_name, None)\n        if func is None:\n            raise", "func = getattr(obj, self._func_name, None)\n        if func is None:\n            raise")], C13),
    ("wcb-dead-kind", W, [("            raise ReferenceError(\"weakly-referenced object no longer exists\")\n        if self._max_args is not None:\n            args = args[: self._max_args]\n" + SETI, "            raise RuntimeError(\"weakly-referenced object no longer exists\")\n        if self._max_args is not None:\n            args = args[: self._max_args]\n" + SETI)], C13),
    ("wcb-dead-call", W, [("        if func is None:\n            raise ReferenceError(\"callback is dead\")\n", "        if func is None:\n            return None\n")], C13),
    ("wcb-fin-none", W, [(REF, REF.replace("weakref.ref(obj, _cb)", "weakref.ref(obj)"))], C13),
    ("wcb-fin-method", W, [("self._obj_ref = self._try_ref(obj.__self__, finalize)\n        self._func_ref", "self._obj_ref = self._try_ref(obj.__self__)\n        self._func_ref")], C13),
    ("wcb-fin-twice", W, [(KILL, KILL.replace("            wcb._alive = False\n", ""))], C13),
    ("wcb-fin-late", W, [(KILL, KILL.replace("            wcb._alive = False\n            finalize(wcb)\n", "            finalize(wcb)\n            wcb._alive = True\n"))], C13),
    ("wcb-fin-arg", W, [(KILL, KILL.replace("finalize(wcb)", "finalize(_)"))], C13),
    ("wcb-fin-pos", W, [("""            return WeakSetattr(
                obj, attr, max_args, finalize, on_ref_error, priority=priority
""", """            return WeakSetattr(
                obj, attr, max_args, None, on_ref_error, priority=priority
""")], C13),
    ("wcb-wire-setattr", S, [("                max_args=cast(\"int | None\", maxargs),\n                finalize=self._try_discard,\n", "                max_args=cast(\"int | None\", maxargs),\n")], C13),
    ("wcb-wire-raise", S, [("missing_ok: bool = True) -> None:\n        \"\"\"Try to discard", "missing_ok: bool = False) -> None:\n        \"\"\"Try to discard")], C13),
    # kept behaviour
    ("same-wcb-sf", W, [(SF_CB, """        passed = args if self._max_args is None else args[: self._max_args]
        self._f(*(self._args + tuple(passed)), **self._kwargs)
""")], set()),
    ("same-wcb-wm", W, [(WM_CB, """        if func is not None and obj is not None:
            n = self._max_args
            if n is not None:
                args = args[:n]
            func.__get__(obj)(*self._args, *args, **self._kwargs)
        else:
            raise ReferenceError("weakly-referenced object no longer exists")
""")], set()),
    ("same-wcb-wm-helper", W, [(WM_CB, """        if obj is None or func is None:
            raise ReferenceError("weakly-referenced object no longer exists")
        func(obj, *self._args, *self._cut(args), **self._kwargs)

    def _cut(self, args):
        if self._max_args is None:
            return args
        return args[: self._max_args]
""")], set()),
    ("same-wcb-seta", W, [(SETA, """        if len(args) == 1:
            (value,) = args
        else:
            value = args
        setattr(obj, self._attr, value)
""")], set()),
    ("same-wcb-seti", W, [(SETI, """        value = args if len(args) != 1 else args[0]
        obj.__setitem__(self._itemkey, value)
""")], set()),
    ("same-wcb-wb", W, [(WB_CB, """        if self._max_args is not None:
            args = args[: self._max_args]
        func(*self._args, *args)
""")], set()),
    ("same-wcb-call", W, [(CALL, """        limit = self._max_args
        return func(*(args if limit is None else args[:limit]), **kwds)
""")], set()),
    ("same-wcb-kill", W, [(KILL, """    def _cb(_: weakref.ReferenceType) -> None:
        if not wcb._alive:
            return
        wcb._alive = False
        finalize(wcb)

    return _cb
""")], set()),
    ("same-wcb-partial", W, [(DISP, """    if isinstance(cb, partial):
        cb, args, kwargs = cb.func, (*cb.args, *args), cb.keywords
""")], set()),
    ("same-wcb-policy", W, [("""            if self._on_ref_error == "raise":
                raise
            if self._on_ref_error == "warn":
""", """            choice = self._on_ref_error
            if choice == "raise":
                raise
            elif choice != "ignore":
""")], set()),
    ("same-wcb-disp", W, [(WMNEW, """        wm_kwargs = {"priority": priority}
        result = WeakMethod(
            cb, max_args, args, kwargs, finalize, on_ref_error, **wm_kwargs
        )
        return result
""")], set()),
    ("same-wcb-deref", W, [(WM_DE, """        if obj is not None and func is not None:
            method = MethodType(func, obj)
            if not self._args and not self._kwargs:
                return method
            return partial(method, *self._args, **self._kwargs)
        return None
""")], set()),
]
