S, G, W = "_signal.py", "_group.py", "_weak_callback.py"
E20, E21, E22 = {"C20"}, {"C21"}, {"C22"}
SM = """        if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
            self._run_emit_loop_inner = self._run_emit_loop_queued
        elif self._reemission == ReemissionMode.LATEST:  # pragma: no cover
            self._run_emit_loop_inner = self._run_emit_loop_latest_only
        else:
            self._run_emit_loop_inner = self._run_emit_loop_immediate


class _SignalBlocker"""
IM = """        if self._reemission == ReemissionMode.QUEUED:
            self._run_emit_loop_inner = self._run_emit_loop_queued
        elif self._reemission == ReemissionMode.LATEST:
            self._run_emit_loop_inner = self._run_emit_loop_latest_only
        else:
            self._run_emit_loop_inner = self._run_emit_loop_immediate

        # whether"""
FIN = "            weakref.finalize(instance, self._signal_instance_cache.pop, obj_id, None)\n"
EMI = """        previous = getattr(_in_this_thread, "emitter", None)
        _in_this_thread.emitter = emitter
        try:
            yield
        finally:
            _in_this_thread.emitter = previous
"""
CASES = [
    ("de-drop-paused", S, [('            "_is_paused",\n            "_check', '            "_check')], E20),
    ("de-drop-name", S, [('            "_name",\n            "_description",', '            "_description",')], E20),
    ("de-drop-checktypes", S, [('            "_check_types_on_connect",\n            "_prio', '            "_prio')], E20),
    ("de-drop-prio", S, [('            "_priority_in_use",\n            "_reemission"', '            "_reemission"')], E20),
    ("de-swap", S, [('        dd = {slot: getattr(self, slot) for slot in attrs}\n', '        dd = {slot: getattr(self, slot) for slot in attrs}\n        dd["_is_paused"] = self._is_blocked\n')], E20),
    ("de-lock-shared", S, [('            "_reemission",\n        )', '            "_reemission",\n            "_lock",\n        )'), ("        self._lock = threading.RLock()\n        # an emi", "        # an emi")], E20),
    ("de-lock-plain", S, [("        self._lock = threading.RLock()\n        # an emi", "        self._lock = threading.Lock()\n        # an emi")], E20),
    ("de-mode-lost", S, [(SM, "        self._run_emit_loop_inner = self._run_emit_loop_immediate\n\n\nclass _SignalBlocker")], E20),
    ("de-mode-other", S, [(SM, SM.replace("ReemissionMode.LATEST:  # pragma", "ReemissionMode.IMMEDIATE:  # pragma"))], E20),
    ("de-mode-bound", S, [('            "_reemission",\n        )', '            "_reemission",\n            "_run_emit_loop_inner",\n        )'), (SM, "\n\nclass _SignalBlocker")], E20),
    ("de-owner-lost", S, [('        dd["_instance"] = self._instance()\n', '        dd["_instance"] = None\n')], E20),
    ("de-slots-lost", S, [("            else:\n                setattr(self, k, v)\n", "            elif k != '_slots':\n                setattr(self, k, v)\n")], E20),
    ("de-slots-weak", S, [("if isinstance(x, StrongFunction)]", "if not isinstance(x, StrongFunction)]")], E20),
    ("de-slots-first", S, [("if isinstance(x, StrongFunction)]", "if isinstance(x, StrongFunction)][:1]")], E20),
    ("de-relay-lost", G, [('        state["_signals"] = dict(self._signals)\n', '        state["_signals"] = {}\n')], E20),
    ("de-relay-deaf", G, [('        if self._slots and all(hasattr(s, "_lock") for s in self._signals.values()):\n            self._connect_relay()\n', '')], E20),
    ("de-relay-block", G, [('        state["_sig_was_blocked"] = dict(self._sig_was_blocked)\n', '        state["_sig_was_blocked"] = {}\n')], E20),
    ("de-group-orig", G, [("(instance=memo.get(id(instance), instance))", "(instance=instance)")], E20),
    ("de-group-self", G, [("        return type(self)(instance=memo.get(id(instance), instance))", "        return self")], E20),
    ("de-group-none", G, [("(instance=memo.get(id(instance), instance))", "()")], E20),
    ("de-strong-maxargs", W, [('            "_max_args",\n            "_alive",\n            "_on_ref_error",\n            "priority",\n            "_f",', '            "_alive",\n            "_on_ref_error",\n            "priority",\n            "_f",')], E20),
    ("de-strong-kw", W, [('            "_args",\n            "_kwargs",\n        )', '            "_args",\n        )')], E20),
    ("same-copy-loop", S, [("        dd = {slot: getattr(self, slot) for slot in attrs}\n", "        dd = {}\n        for slot in attrs:\n            dd[slot] = getattr(self, slot)\n")], set()),
    ("same-copy-pop", S, [('        for k, v in state.items():\n            if k == "_instance":\n                self._instance = self._instance_ref(v)\n            else:\n                setattr(self, k, v)\n',
                           '        owner = state["_instance"]\n        self._instance = self._instance_ref(owner)\n        for k in state:\n            if k != "_instance":\n                setattr(self, k, state[k])\n')], set()),
    ("same-copy-helper", S, [(SM, "        self._choose()\n\n    def _choose(self) -> None:\n" + SM), (IM, "        self._choose()\n        # whether")], set()),
    ("same-copy-slots", S, [('        dd["_slots"] = [x for x in self._slots if isinstance(x, StrongFunction)]\n', '        strong = []\n        for x in self._slots:\n            if isinstance(x, StrongFunction):\n                strong.append(x)\n        dd["_slots"] = strong\n')], set()),
    ("same-copy-tuple", S, [("        dd = {slot: getattr(self, slot) for slot in attrs}\n", "        dd = dict((slot, getattr(self, slot)) for slot in attrs)\n")], set()),
    ("same-group-memo", G, [("        return type(self)(instance=memo.get(id(instance), instance))", "        if id(instance) in memo:\n            instance = memo[id(instance)]\n        cls = type(self)\n        return cls(instance)")], set()),
    # C21
    ("de-opt-types", S, [("            check_types_on_connect=self._check_types_on_connect,\n            reem", "            reem")], E21),
    ("de-opt-swap", S, [("            check_nargs_on_connect=self._check_nargs_on_connect,\n            check_types_on_connect=self._check_types_on_connect,\n            reem", "            check_nargs_on_connect=self._check_types_on_connect,\n            check_types_on_connect=self._check_nargs_on_connect,\n            reem")], E21),
    ("de-opt-desc", S, [("            description=self.description,\n", "")], E21),
    ("de-opt-reem", S, [("            reemission=self._reemission,\n        )\n\n    @classmethod", "        )\n\n    @classmethod")], E21),
    ("de-opt-inst", S, [("            instance=instance,\n            name=name or", "            name=name or")], E20 | E21 | E22),
    ("de-opt-sig", S, [("            self.signature,\n            instance=instance", "            _empty_signature,\n            instance=instance")], E21),
    ("de-name-always", S, [("        if self._name is None:\n            self._name = name\n", "        self._name = name\n")], E21),
    ("de-name-never", S, [("        if self._name is None:\n            self._name = name\n", "        self._name = self._name or owner.__name__\n")], E21),
    ("de-cache-not", S, [("            self._cache_signal_instance(instance, signal_instance)\n\n        return", "            pass\n\n        return")], E21),
    ("de-cache-type", S, [("        obj_id = id(instance)\n        self._sig", "        obj_id = id(type(instance))\n        self._sig")], E21),
    ("de-cache-noevict", S, [("        with suppress(TypeError):\n" + FIN, "")], E21),
    ("de-cache-wrongkey", S, [(FIN, FIN.replace("obj_id, None", "id(signal_instance), None"))], E21),
    ("de-cache-raise", S, [("        except AttributeError:\n            # if that", "        except TypeError:\n            # if that")], E21),
    ("de-strong-owner", S, [("        try:\n            return weakref.ref(instance)\n        except TypeError:\n            # fall back to strong reference if instance is not weak-referenceable\n            return lambda: instance\n", "        return lambda: instance\n")], E21),
    ("de-class-access", S, [("        if instance is None:\n            return self\n        if id", "        if instance is None and owner is not None:\n            return self\n        if id")], E21),
    ("same-get-cache", S, [("        if id(instance) in self._signal_instance_cache:\n            return self._signal_instance_cache[id(instance)]\n", "        cached = self._signal_instance_cache.get(id(instance))\n        if cached is not None:\n            return cached\n")], set()),
    ("same-get-inline", S, [("            self._cache_signal_instance(instance, signal_instance)\n\n        return", "            key = id(instance)\n            self._signal_instance_cache[key] = signal_instance\n            with suppress(TypeError):\n                weakref.finalize(instance, self._signal_instance_cache.pop, key, None)\n\n        return")], set()),
    ("same-create-kw", S, [("        return self._signal_instance_class(\n            self.signature,\n", "        kls = self._signal_instance_class\n        return kls(\n            self._signature,\n")], set()),
    ("same-ref-early", S, [("        if instance is None:\n            return lambda: None\n\n        try:", "        if instance is None:\n            return lambda: instance\n\n        try:")], set()),
    # C22
    ("de-emit-none", S, [("            _in_this_thread.emitter = previous\n", "            _in_this_thread.emitter = None\n")], E22),
    ("de-emit-global", S, [("_in_this_thread = threading.local()", "class _Here:\n    emitter = None\n\n\n_in_this_thread = _Here()")], E22),
    ("de-emit-late", S, [(EMI, '        previous = getattr(_in_this_thread, "emitter", None)\n        if previous is None:\n            _in_this_thread.emitter = emitter\n        try:\n            yield\n        finally:\n            _in_this_thread.emitter = previous\n')], E22),
    ("de-sender-emitter", S, [('        return getattr(cls.current_emitter(), "instance", None)', '        return cls.current_emitter()')], E22),
    ("de-sender-attr", S, [('        return getattr(cls.current_emitter(), "instance", None)', '        return getattr(cls.current_emitter(), "_instance", None)')], E22),
    ("same-emit-stack", S, [(EMI, '        here = _in_this_thread\n        previous = getattr(here, "emitter", None)\n        here.emitter = emitter\n        try:\n            yield\n        finally:\n            here.emitter = previous\n')], set()),
    ("same-sender-if", S, [('        return getattr(cls.current_emitter(), "instance", None)', '        emitter = cls.current_emitter()\n        return None if emitter is None else emitter.instance')], set()),
    ("de-own-args", S, [("list(self._args_queue)", "self._args_queue")], E20),
    ("de-idle-queue", S, [("        self._emit_queue = deque()\n        self._recursion_depth = 0\n        self._max_recursion_depth = 0\n        if", "        if"), ('            "_reemission",\n        )', '            "_reemission",\n            "_emit_queue",\n            "_recursion_depth",\n            "_max_recursion_depth",\n        )')], E20),
    ("de-attr-name", S, [("        self._attr_name = name\n", "")], {"C21"}),
    ("same-own-copy", S, [("list(self._args_queue)", "self._args_queue.copy()")], set()),
    ("same-attr-name", S, [("            attr_name = self._attr_name or cast(\"str\", self._name)\n            setattr(instance, attr_name, signal_instance)", "            setattr(instance, self._attr_name or self._name or '', signal_instance)")], set()),
]
