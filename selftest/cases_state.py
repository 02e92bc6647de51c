S = "_signal.py"
G = "_group.py"
E14, E15, E16 = {"C14"}, {"C15"}, {"C16"}
BLK = "        if self._is_blocked:\n            return\n"
PZ = "        if self._is_paused:\n            self._args_queue.append(args)\n            return\n"
RS = """        if reducer is not None:
            if len(inspect.signature(reducer).parameters) == 1:
                args = cast("ReducerOneArg", reducer)(args_queue)
            else:
                reducer = cast("ReducerTwoArgs", reducer)
                if initial is _NULL:
                    args = reduce(reducer, args_queue)
                else:
                    args = reduce(reducer, args_queue, initial)
            self._call_debug_hook(args)
            self._run_emit_loop(args)
        else:
            for args in args_queue:
                self._call_debug_hook(args)
                self._run_emit_loop(args)
"""
CHK = """        if check_nargs:
            try:
                self.signature.bind(*args)"""
SWAP = "        args_queue, self._args_queue = self._args_queue, []\n"
NOS = "        if len(self._slots) == 0:\n            return\n\n        if reducer is not None"
GU = """        for name, sig in self._signals.items():
            if not self._sig_was_blocked.pop(name, False):
                sig.unblock()
"""
GB = """            self._sig_was_blocked.setdefault(name, sig._is_blocked)
            if name in exclude or sig in exclude:
                continue
            sig.block()
"""
RL = """            if self._is_paused:
                self._args_queue.append((info,))
                return
            self._run_emit_loop((info,))
"""
BX = "        if not self._was_blocked:\n            self._signal.unblock()\n"
PX = "        if not self._was_paused:\n            self._signal.resume(self._reducer, self._initial)\n"
CASES = [
    # C14
    ("st-block-late", S, [(BLK + "\n        if check_nargs", "        if check_nargs"),
                          ("        if self._is_paused:\n            self._args_queue.append(args)\n            return\n\n        if SignalInstance._debug_hook",
                           BLK + PZ + "\n        if SignalInstance._debug_hook")], E14),
    ("st-block-afterpause", S, [(BLK + "\n        if check_nargs", "        if check_nargs"),
                          (PZ + "\n        if SignalInstance._debug_hook", PZ + BLK + "\n        if SignalInstance._debug_hook")], E14),
    ("st-fast-noblock", S, [(BLK + "\n" + PZ + "\n        if self._recursion", PZ + "\n        if self._recursion")], E14),
    ("st-fast-order", S, [(BLK + "\n" + PZ + "\n        if self._recursion", PZ + BLK + "\n        if self._recursion")], E14),
    ("st-block-count", S, [("        self._is_blocked = True\n", "        self._is_blocked = not self._is_blocked\n")], E14),
    ("st-unblock-not", S, [('        """Unblock this signal, allowing it to emit."""\n        self._is_blocked = False', '        """Unblock this signal, allowing it to emit."""\n        self._is_blocked = self._is_paused')], E14 | E16),
    ("st-resume-unblocks", S, [("        self._is_paused = False\n        # not sure", "        self._is_paused = False\n        self._is_blocked = False\n        # not sure")], E14),
    ("st-emit-unblocks", S, [(BLK + "\n        if check_nargs", "        if self._is_blocked:\n            self._is_blocked = False\n            return\n\n        if check_nargs")], E14),
    ("st-pause-unblocks", S, [("        self._is_paused = True\n", "        self._is_paused = True\n        self._is_blocked = False\n")], E14),
    ("same-block-prop", S, [(BLK + "\n        if check_nargs", "        blocked = self._is_blocked\n        if blocked:\n            return None\n\n        if check_nargs")], set()),
    ("same-block-or", S, [(BLK + "\n" + PZ + "\n        if self._recursion", "        if not self._is_blocked and self._is_paused:\n            self._args_queue.append(args)\n        if self._is_blocked or self._is_paused:\n            return\n        if self._recursion")], set()),
    ("same-block-inv", S, [("    def block(self, exclude: Container[str | SignalInstance] = ()) -> None:\n        \"\"\"Block this signal from emitting.", "    def _set_blocked(self, v: bool) -> None:\n        self._is_blocked = v\n\n    def block(self, exclude: Container[str | SignalInstance] = ()) -> None:\n        \"\"\"Block this signal from emitting."),
                           ("        self._is_blocked = True\n", "        self._set_blocked(True)\n")], set()),
    # C15
    ("st-pause-drop", S, [(PZ + "\n        if SignalInstance._debug", "        if self._is_paused:\n            return\n\n        if SignalInstance._debug")], E15),
    ("st-pause-front", S, [(PZ + "\n        if SignalInstance._debug", PZ.replace("append(args)", "insert(0, args)") + "\n        if SignalInstance._debug")], E15),
    ("st-pause-latest", S, [(PZ + "\n        if SignalInstance._debug", PZ.replace("self._args_queue.append(args)", "self._args_queue = [args]") + "\n        if SignalInstance._debug")], E15),
    ("st-pause-uniq", S, [(PZ + "\n        if SignalInstance._debug", PZ.replace("self._args_queue.append(args)", "if args not in self._args_queue:\n                self._args_queue.append(args)") + "\n        if SignalInstance._debug")], E15),
    ("st-fast-nopause", S, [(PZ + "\n        if self._recursion", "        if self._recursion")], E15),
    ("st-fast-list", S, [(PZ + "\n        if self._recursion", PZ.replace("append(args)", "append(list(args))") + "\n        if self._recursion")], E15),
    ("st-resume-rev", S, [("            for args in args_queue:\n", "            for args in reversed(args_queue):\n")], E15),
    ("st-resume-last", S, [("            for args in args_queue:\n", "            for args in args_queue[-1:]:\n")], E15),
    ("st-resume-set", S, [("            for args in args_queue:\n", "            for args in dict.fromkeys(args_queue):\n")], E15),
    ("st-resume-keep", S, [(SWAP, "        args_queue = self._args_queue\n")], E15),
    ("st-resume-late", S, [(SWAP, "        args_queue = list(self._args_queue)\n"), (RS, RS + "        self._args_queue.clear()\n")], E15),
    ("st-resume-late-unpause", S, [("        self._is_paused = False\n        # not sure", "        # not sure"), (RS, RS + "        self._is_paused = False\n")], E15),
    ("st-resume-reducer-each", S, [("            self._run_emit_loop(args)\n        else:\n", "            for _ in args_queue:\n                self._run_emit_loop(args)\n        else:\n")], E15),
    ("st-resume-noinit", S, [("args = reduce(reducer, args_queue, initial)", "args = reduce(reducer, args_queue)")], E15),
    ("st-resume-init", S, [("if initial is _NULL:", "if initial is None:")], E15),
    ("st-resume-onearg-init", S, [(".parameters) == 1", ".parameters) == 2")], E15),
    ("st-resume-empty-red", S, [('        if not getattr(self, "_args_queue", None):\n            return\n', "")], E15),
    ("st-resume-noslots", S, [(NOS, "        if reducer is not None")], set()),
    ("st-resume-noslots-keep", S, [(SWAP, ""), (NOS, "        if len(self._slots) == 0:\n            return\n" + SWAP + "\n        if reducer is not None")], E15),
    ("st-pause-clears", S, [("        self._is_paused = True\n", "        self._is_paused = True\n        self._args_queue.clear()\n")], set()),
    ("st-relay-nopause", G, [(RL, "            self._run_emit_loop((info,))\n")], E15),
    ("st-relay-flat", G, [("self._args_queue.append((info,))", "self._args_queue.append(args)")], E15),
    ("st-check-afterpause", S, [(PZ + "\n        self._call_debug", "\n        self._call_debug"), (BLK + "\n        if check_nargs", BLK + PZ + "\n        if check_nargs")], E15),
    ("same-resume-pop", S, [(RS, RS.replace("            for args in args_queue:\n", "            while args_queue:\n                args = args_queue.pop(0)\n"))], set()),
    ("same-resume-clear", S, [(SWAP, "        args_queue = list(self._args_queue)\n        self._args_queue.clear()\n")], set()),
    ("same-resume-helper", S, [(RS, "        self._flush(args_queue, reducer, initial)\n\n    def _flush(self, args_queue, reducer, initial):\n" + RS)], set()),
    ("same-resume-red-var", S, [(RS, RS.replace("""                if initial is _NULL:
                    args = reduce(reducer, args_queue)
                else:
                    args = reduce(reducer, args_queue, initial)
""", """                extra = () if initial is _NULL else (initial,)
                args = reduce(reducer, args_queue, *extra)
"""))], set()),
    # C16
    ("st-blocker-always", S, [(BX, "        self._signal.unblock()\n")], E16),
    ("st-blocker-never", S, [(BX, "        pass\n")], E16),
    ("st-blocker-exc", S, [(BX, "        if not self._was_blocked and args[0] is None:\n            self._signal.unblock()\n")], E16),
    ("st-blocker-inv", S, [(BX, BX.replace("not self", "self"))], E16),
    ("st-blocker-paused", S, [("        self._was_blocked = signal._is_blocked\n", "        self._was_blocked = signal._is_paused\n")], E16),
    ("st-blocker-late", S, [("        self._was_blocked = signal._is_blocked\n", ""), ("        self._signal.block(exclude=self._exclude)\n", "        self._signal.block(exclude=self._exclude)\n        self._was_blocked = self._signal._is_blocked\n")], E16),
    ("st-blocker-noexclude", S, [("self._signal.block(exclude=self._exclude)", "self._signal.block()")], E16),
    ("st-pauser-always", S, [(PX, "        self._signal.resume(self._reducer, self._initial)\n")], E16),
    ("st-pauser-exc", S, [(PX, PX.replace("self._was_paused:", "self._was_paused and args[0] is None:"))], E16),
    ("st-pauser-noreducer", S, [("self._signal.resume(self._reducer, self._initial)", "self._signal.resume()")], E16),
    ("st-pauser-noinit", S, [("self._signal.resume(self._reducer, self._initial)", "self._signal.resume(self._reducer)")], E16),
    ("st-pauser-flag", S, [(PX, "        if not self._was_paused:\n            self._signal._is_paused = False\n")], E16),
    ("st-group-set", G, [("self._sig_was_blocked.setdefault(name, sig._is_blocked)", "self._sig_was_blocked[name] = sig._is_blocked")], E16),
    ("st-group-nopop", G, [("self._sig_was_blocked.pop(name, False)", "self._sig_was_blocked.get(name, False)")], E16),
    ("st-group-all", G, [(GU, "        for sig in self._signals.values():\n            sig.unblock()\n")], E16),
    ("st-group-exname", G, [("if name in exclude or sig in exclude:", "if sig in exclude:")], E16),
    ("st-group-exsig", G, [("if name in exclude or sig in exclude:", "if name in exclude:")], E16),
    ("st-group-exunblock", G, [(GB, """            if name in exclude or sig in exclude:
                continue
            self._sig_was_blocked.setdefault(name, sig._is_blocked)
            sig.block()
""")], E16),
    ("st-group-noself", G, [("        super().block()\n", "")], E16),
    ("st-group-noselfun", G, [("        super().unblock()\n", "")], E16),
    ("st-group-first", G, [(GU, GU + "            break\n")], E16),
    ("same-blocker-enter", S, [("        self._was_blocked = signal._is_blocked\n", "        self._was_blocked = False\n"), ("        self._signal.block(exclude=self._exclude)\n", "        self._was_blocked = self._signal._is_blocked\n        self._signal.block(exclude=self._exclude)\n")], set()),
    ("same-blocker-ctx", S, [("        return _SignalBlocker(self)\n", "        return self._blocked_cm()\n\n    @contextmanager\n    def _blocked_cm(self):\n        was = self._is_blocked\n        self.block()\n        try:\n            yield\n        finally:\n            if not was:\n                self.unblock()\n")], set()),
    ("same-group-listcomp", G, [(GU, """        was = dict(self._sig_was_blocked)
        self._sig_was_blocked.clear()
        for name, sig in self._signals.items():
            if not was.get(name, False):
                sig.unblock()
""")], set()),
    ("same-group-notin", G, [(GB, """            if name not in self._sig_was_blocked:
                self._sig_was_blocked[name] = sig._is_blocked
            if not (name in exclude or sig in exclude):
                sig.block()
""")], set()),
]
