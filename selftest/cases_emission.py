S = "_signal.py"
LOOPI = """        args = self._emit_queue.popleft()
        for caller in self._slots:
            caller.cb(args)

    def _run_emit_loop_latest"""
LOOPQ = """        i = 0
        while i < len(self._emit_queue):
            args = self._emit_queue[i]
            for caller in self._slots:
                caller.cb(args)
                if len(self._emit_queue) > RECURSION_LIMIT:
                    raise RecursionError
            i += 1
"""
FIN = """            finally:
                self._recursion_depth -= 1
                # we're back to the root level of the emit loop, reset max_depth
                if self._recursion_depth <= 0:
                    self._max_recursion_depth = 0
                    self._recursion_depth = 0
                self._emit_queue.clear()
"""
HEAD = """            self._emit_queue.append(args)
            if len(self._emit_queue) > 1:
                return
"""
LATEST = """            if self._recursion_depth < self._max_recursion_depth:
                # we've already entered a deeper emit loop
                # we should drop the remaining slots in this round and return
                break
            caller.cb(args)
"""
LATESTDEF = """        self._args = args = self._emit_queue.popleft()
        for caller in self._slots:
""" + LATEST
TRY = """            try:
                # allow receiver to query sender with Signal.current_emitter()
                self._recursion_depth += 1
                self._max_recursion_depth = max(
                    self._max_recursion_depth, self._recursion_depth
                )
                with Signal._emitting(self):
                    self._run_emit_loop_inner()
"""
DISP = """        if self._reemission == ReemissionMode.QUEUED:
            self._run_emit_loop_inner = self._run_emit_loop_queued
        elif self._reemission == ReemissionMode.LATEST:
            self._run_emit_loop_inner = self._run_emit_loop_latest_only
        else:
            self._run_emit_loop_inner = self._run_emit_loop_immediate
"""
ELIF = """        elif self._reemission == ReemissionMode.LATEST:
            self._run_emit_loop_inner = self._run_emit_loop_latest_only
"""
SETD = """        self._lock = threading.RLock()
        # an emission running on the original is not running on the copy
        self._emit_queue = deque()
        self._recursion_depth = 0
        self._max_recursion_depth = 0
        if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
            self._run_emit_loop_inner = self._run_emit_loop_queued
        elif self._reemission == ReemissionMode.LATEST:  # pragma: no cover
            self._run_emit_loop_inner = self._run_emit_loop_latest_only
        else:
            self._run_emit_loop_inner = self._run_emit_loop_immediate
"""
CASES = [
    # ---- broken
    ("emit-drop-last", S, [("for caller in self._slots:\n            caller.cb(args)\n\n    def _run_emit_loop_latest", "for caller in self._slots[:-1] or self._slots:\n            caller.cb(args)\n\n    def _run_emit_loop_latest")], {"C01"}),
    ("emit-reversed", S, [(LOOPI, LOOPI.replace("in self._slots", "in reversed(self._slots)"))], {"C01"}),
    ("emit-skip-noargs", S, [("        self._run_emit_loop(args)\n\n    def _call_debug_hook", "        if not args and self._recursion_depth:\n            return\n        self._run_emit_loop(args)\n\n    def _call_debug_hook")], {"C01"}),
    ("emit-args-trunc", S, [(LOOPQ, LOOPQ.replace("caller.cb(args)", "caller.cb(args[:3])"))], {"C01"}),
    ("emit-twice-prio", S, [(LOOPI, LOOPI.replace("caller.cb(args)", "caller.cb(args)\n            if caller.priority > 5:\n                caller.cb(args)"))], {"C01"}),
    ("emit-stop-false", S, [(LOOPI, LOOPI.replace("            caller.cb(args)\n", "            caller.cb(args)\n            if self._is_blocked:\n                break\n"))], {"C01"}),
    ("call-drops-check", S, [("return self.emit(*args, check_nargs=check_nargs, check_types=check_types)", "return self.emit(*args, check_nargs=check_nargs)")], {"C01"}),
    ("nargs-check-after-pause", S, [("        if self._is_paused:\n            self._args_queue.append(args)\n            return\n\n        self._call_debug", "        self._call_debug"), ("        if check_nargs:\n            try:", "        if self._is_paused:\n            self._args_queue.append(args)\n            return\n\n        if check_nargs:\n            try:")], {"C01"}),
    ("queue-threshold", S, [(HEAD, HEAD.replace("> 1", "> 2"))], {"C02"}),
    ("queue-appendleft", S, [(HEAD, HEAD.replace("append(", "appendleft("))], {"C01", "C02"}),
    ("queue-popleft-first", S, [(LOOPQ, """        while self._emit_queue:
            args = self._emit_queue.popleft()
            for caller in self._slots:
                caller.cb(args)
                if len(self._emit_queue) > RECURSION_LIMIT:
                    raise RecursionError
""")], {"C02"}),
    ("immediate-peek", S, [(LOOPI, LOOPI.replace("popleft()", "pop()") .replace("args = self._emit_queue.pop()", "args = self._emit_queue[0]"))], {"C02"}),
    ("latest-le", S, [(LATEST, LATEST.replace("<", "<=").replace("<= self._max", "< self._max") .replace("self._recursion_depth < self._max_recursion_depth", "self._recursion_depth + 1 < self._max_recursion_depth"))], {"C02"}),
    ("latest-continue-noguard", S, [(LATEST, LATEST.replace("                break\n", "                continue\n"))], set() or {"C02", "C01"}),
    ("latest-nomark", S, [("                self._max_recursion_depth = max(\n                    self._max_recursion_depth, self._recursion_depth\n                )\n", "                self._max_recursion_depth = max(self._max_recursion_depth, 1)\n")], {"C02"}),
    ("latest-noreset", S, [("                    self._max_recursion_depth = 0\n                    self._recursion_depth = 0\n", "                    self._recursion_depth = 0\n")], {"C03"}),
    ("latest-reset-always", S, [(FIN, """            finally:
                self._recursion_depth -= 1
                self._max_recursion_depth = 0
                self._emit_queue.clear()
""")], {"C03"}),
    ("swap-modes", S, [(DISP, DISP.replace(ELIF, ""))], {"C02"}),
    ("setstate-dispatch", S, [(SETD, SETD.replace(ELIF.replace("LATEST:", "LATEST:  # pragma: no cover"), ""))], {"C02", "C20"}),
    ("noclear-on-error", S, [(FIN, FIN.replace("                self._emit_queue.clear()\n", "                if self._recursion_depth <= 0 and not self._is_paused:\n                    self._emit_queue.clear()\n"))], {"C03"}),
    ("clear-not-finally", S, [(FIN, FIN.replace("                self._emit_queue.clear()\n", "            self._emit_queue.clear()\n"))], {"C03"}),
    ("depth-leak", S, [(FIN, FIN.replace("            finally:\n                self._recursion_depth -= 1\n", "            finally:\n                if self._emit_queue:\n                    self._recursion_depth -= 1\n"))], {"C03"}),
    ("fast-depth-leak", S, [("        finally:\n            if self._recursion_depth > 0:\n                self._recursion_depth -= 1", "        else:\n            if self._recursion_depth > 0:\n                self._recursion_depth -= 1")], {"C03"}),
    ("emitter-none", S, [("            _in_this_thread.emitter = previous", "            _in_this_thread.emitter = None")], {"C03"}),
    ("emitter-nofinally", S, [("        try:\n            yield\n        finally:\n            _in_this_thread.emitter = previous", "        yield\n        _in_this_thread.emitter = previous")], {"C03"}),
    ("wrap-recursion", S, [("            except RecursionError as e:\n                raise RecursionError(\n                    f\"RecursionError when \"\n                    f\"emitting signal {self.name!r} with args {_safe_str(args)}\"\n                ) from e\n            except EmitLoopError as e:\n                raise e\n", "            except EmitLoopError as e:\n                raise e\n")], {"C04"}),
    ("wrap-nested", S, [("            except EmitLoopError as e:\n                raise e\n            except", "            except")], {"C04"}),
    ("swallow-stop", S, [("            except EmitLoopError as e:\n                raise e\n            except", "            except StopIteration:\n                return\n            except EmitLoopError as e:\n                raise e\n            except")], {"C04"}),
    ("wrap-base", S, [("            except Exception as cb_err:\n                loop_err = EmitLoopError(\n", "            except BaseException as cb_err:\n                loop_err = EmitLoopError(\n")], {"C04"}),
    ("fast-swallow", S, [("            raise loop_err from cb_err  # emit() call ABOVE || callback error BELOW\n        finally:", "            if self._recursion_depth == 1:\n                raise loop_err from cb_err\n        finally:")], {"C04"}),
    ("ctor-cause", "_exceptions.py", [("        self.__cause__ = exc\n", "        self.__cause__ = exc.__cause__ or exc\n")], {"C04"}),
    ("nolimit", S, [("        if self._recursion_depth >= RECURSION_LIMIT:\n            raise RecursionError(\"Recursion limit reached!\")\n\n", "")], {"C05"}),
    ("nolimit-fast", S, [("        if self._recursion_depth >= RECURSION_LIMIT:\n            raise RecursionError(\n                f\"Psygnal", "        if self._recursion_depth >= RECURSION_LIMIT and self._is_paused:\n            raise RecursionError(\n                f\"Psygnal")], {"C05"}),
    ("nolimit-queue", S, [("                if len(self._emit_queue) > RECURSION_LIMIT:\n                    raise RecursionError\n", "")], {"C05"}),
    ("fast-nocount", S, [("        self._recursion_depth += 1\n        try:\n            for caller", "        try:\n            for caller"), ("        finally:\n            if self._recursion_depth > 0:\n                self._recursion_depth -= 1", "        finally:\n            pass")], {"C05"}),
    # ---- same behaviour
    ("same-while-immediate", S, [(LOOPI, """        args = self._emit_queue.popleft()
        i = 0
        while i < len(self._slots):
            self._slots[i].cb(args)
            i += 1

    def _run_emit_loop_latest""")], set()),
    ("same-helper", S, [(LOOPI, """        args = self._emit_queue.popleft()
        self._invoke_all(args)

    def _invoke_all(self, args: tuple) -> None:
        for slot in self._slots:
            slot.cb(args)

    def _run_emit_loop_latest""")], set()),
    ("same-forqueue", S, [(LOOPQ, """        done = 0
        while True:
            if done >= len(self._emit_queue):
                return
            current = self._emit_queue[done]
            for slot in self._slots:
                slot.cb(current)
                if len(self._emit_queue) > RECURSION_LIMIT:
                    raise RecursionError
            done += 1
""")], set()),
    ("same-latest-guard", S, [(LATEST, """            if self._max_recursion_depth <= self._recursion_depth:
                caller.cb(args)
            else:
                break
""")], set()),
    ("same-latest-return", S, [(LATEST, LATEST.replace("break", "return"))], set()),
    ("same-head", S, [(HEAD, """            nested = bool(self._emit_queue)
            self._emit_queue.append(args)
            if nested:
                return
""")], set()),
    ("same-head2", S, [(HEAD, HEAD.replace("len(self._emit_queue) > 1", "len(self._emit_queue) >= 2"))], set()),
    ("same-dispatch-dict", S, [(DISP + "\n        # whether", "        self._choose_loop()\n\n        # whether"),
       (SETD, """        self._lock = threading.RLock()
        self._emit_queue = deque()
        self._recursion_depth = self._max_recursion_depth = 0
        self._choose_loop()

    def _choose_loop(self) -> None:
        if self._reemission == ReemissionMode.LATEST:
            loop = self._run_emit_loop_latest_only
        elif self._reemission == ReemissionMode.QUEUED:
            loop = self._run_emit_loop_queued
        else:
            loop = self._run_emit_loop_immediate
        self._run_emit_loop_inner = loop
""")], set()),
    ("same-emitting-cm", S, [("        previous = getattr(_in_this_thread, \"emitter\", None)\n        _in_this_thread.emitter = emitter\n        try:\n            yield\n        finally:\n            _in_this_thread.emitter = previous", "        outer = cls.current_emitter()\n        _in_this_thread.emitter = emitter\n        try:\n            yield None\n        finally:\n            _in_this_thread.emitter = outer")], set()),
    ("same-inline-emitting", S, [("                with Signal._emitting(self):\n                    self._run_emit_loop_inner()\n", "                outer = Signal.current_emitter()\n                _in_this_thread.emitter = self\n                try:\n                    self._run_emit_loop_inner()\n                finally:\n                    _in_this_thread.emitter = outer\n")], set()),
    ("same-fin", S, [(FIN, """            finally:
                self._emit_queue.clear()
                depth = self._recursion_depth - 1
                self._recursion_depth = depth if depth > 0 else 0
                if depth <= 0:
                    self._max_recursion_depth = 0
""")], set()),
    ("same-handlers", S, [("            except EmitLoopError as e:\n                raise e\n            except Exception as cb_err:\n                loop_err = EmitLoopError(\n", "            except EmitLoopError:\n                raise\n            except Exception as cb_err:\n                loop_err = EmitLoopError(\n")], set()),
    ("same-emit-order", S, [("        if self._is_blocked:\n            return\n\n        if check_nargs:", "        blocked = self._is_blocked\n        if blocked:\n            return None\n\n        if check_nargs:")], set()),
    ("same-max-if", S, [("                self._max_recursion_depth = max(\n                    self._max_recursion_depth, self._recursion_depth\n                )\n", "                if self._recursion_depth > self._max_recursion_depth:\n                    self._max_recursion_depth = self._recursion_depth\n")], set()),
    ("same-wrap-helper", S, [("""                loop_err = EmitLoopError(
                    exc=cb_err,
                    signal=self,
                    recursion_depth=self._recursion_depth - 1,
                    reemission=self._reemission,
                    emit_queue=self._emit_queue,
                ).with_traceback(cb_err.__traceback__)
                # this comment will show up in the traceback
                raise loop_err from cb_err""", """                raise self._wrap(cb_err) from cb_err"""), ("    def _run_emit_loop_immediate(self)", """    def _wrap(self, cb_err: Exception) -> EmitLoopError:
        return EmitLoopError(
            exc=cb_err,
            signal=self,
            recursion_depth=self._recursion_depth - 1,
            reemission=self._reemission,
            emit_queue=self._emit_queue,
        ).with_traceback(cb_err.__traceback__)

    def _run_emit_loop_immediate(self)""")], set()),
    ("keep-args", S, [("        args = self._emit_queue.popleft()\n        for caller in self._slots:\n            if self._rec", "        self._last = args = self._emit_queue.popleft()\n        for caller in self._slots:\n            if self._rec")], {"C03"}),
    ("keep-slot", S, [("            for caller in self._slots:\n                caller.cb(args)\n                if len", "            for caller in self._slots:\n                self._running = caller\n                caller.cb(args)\n                if len")], {"C03"}),
    ("same-keep-reset", S, [("        args = self._emit_queue.popleft()\n        for caller in self._slots:\n            caller.cb(args)\n", "        args = self._emit_queue.popleft()\n        self._delivering = args\n        try:\n            for caller in self._slots:\n                caller.cb(args)\n        finally:\n            self._delivering = None\n")], set()),
]
