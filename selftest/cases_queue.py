Q = "_queue.py"
CB = """        if current_thread() is self._cbthread:
            self._wrapped.cb(args)
        else:
            _thread_queue(self._cbthread).put((self._wrapped.cb, args))
"""
DR = """    while True:
        try:
            cb, args = queue.get_nowait()
        except Empty:  # another thread may have taken the last one
            return
        try:
            cb(args)
        except Exception as e:  # pragma: no cover
            raise EmitLoopError(exc=e) from e
"""
TQ = "    return QueuedCallback._GLOBAL_QUEUE.setdefault(thread, Queue())\n"
E = {"C19"}
CASES = [
    ("q-direct-always", Q, [(CB, "        self._wrapped.cb(args)\n")], E),
    ("q-both", Q, [("        else:\n            _thread_queue", "        if current_thread() is not main_thread():\n            _thread_queue")], E),
    ("q-never-direct", Q, [(CB, "        _thread_queue(self._cbthread).put((self._wrapped.cb, args))\n")], E),
    ("q-main-cmp", Q, [("        if current_thread() is self._cbthread:", "        if current_thread() is main_thread():")], E),
    ("q-wrongq", Q, [("            _thread_queue(self._cbthread).put", "            _thread_queue(main_thread()).put")], E),
    ("q-curq", Q, [("            _thread_queue(self._cbthread).put", "            _thread_queue(current_thread()).put")], E),
    ("q-noargs", Q, [("put((self._wrapped.cb, args))", "put((self._wrapped.cb, ()))")], E),
    ("q-put2", Q, [("put((self._wrapped.cb, args))\n", "put((self._wrapped.cb, args))\n            _thread_queue(self._cbthread).put((self._wrapped.cb, args))\n")], E),
    ("q-none-cur", Q, [('if thread is None or thread == "main":', 'if thread == "main":'), ('elif thread == "current":', 'elif thread is None or thread == "current":')], E),
    ("q-cur-main", Q, [("            thread = current_thread()\n        elif", "            thread = main_thread()\n        elif")], E),
    ("q-noprio", Q, [("        self.priority: int = wrapped.priority\n", "        self.priority: int = 0\n")], E),
    ("q-nomax", Q, [("        self._max_args: int | None = wrapped._max_args\n", "        self._max_args: int | None = None\n")], E),
    ("q-key", Q, [("        self._key: str = wrapped._key\n", "        self._key: str = WeakCallback.object_key(self)\n")], E),
    ("q-deref", Q, [("        return self._wrapped.dereference()", "        return self._wrapped.cb")], E),
    ("q-drain-main", Q, [("_thread = current_thread() if thread is None else thread", "_thread = main_thread() if thread is None else thread")], E),
    ("q-drain-one", Q, [(DR, DR.replace("while True:", "if True:"))], E),
    ("q-drain-block", Q, [(DR, DR.replace("""        try:
            cb, args = queue.get_nowait()
        except Empty:  # another thread may have taken the last one
            return
""", "        cb, args = queue.get()\n").replace("while True:", "while not queue.empty():"))], E),
    ("q-drain-empty", Q, [(DR, DR.replace("""        try:
            cb, args = queue.get_nowait()
        except Empty:  # another thread may have taken the last one
            return
""", "        cb, args = queue.get_nowait()\n").replace("while True:", "while not queue.empty():"))], E),
    ("q-drain-batch", Q, [(DR, """    items = []
    while True:
        try:
            items.append(queue.get_nowait())
        except Empty:
            break
    for cb, args in items:
        try:
            cb(args)
        except Exception as e:
            raise EmitLoopError(exc=e) from e
""")], E),
    ("q-drain-swallow", Q, [("            raise EmitLoopError(exc=e) from e", "            print(e)")], E),
    ("q-drain-raw", Q, [(DR, DR.replace("""        try:
            cb(args)
        except Exception as e:  # pragma: no cover
            raise EmitLoopError(exc=e) from e
""", "        cb(args)\n"))], E),
    ("q-drain-stop", Q, [("            cb(args)\n", "            cb(args)\n            return\n")], E),
    ("q-drain-twice", Q, [("            cb(args)\n", "            if cb(args) is None:\n                cb(args)\n")], E),
    ("q-drain-splat", Q, [("            cb(args)\n", "            cb(*args)\n")], E),
    ("q-lifo", Q, [("from queue import Empty, Queue", "from queue import Empty, LifoQueue as Queue")], {"C19"}),
    ("q-bounded", Q, [("setdefault(thread, Queue())", "setdefault(thread, Queue(1000))")], E),
    ("q-race", Q, [(TQ, "    q = QueuedCallback._GLOBAL_QUEUE.get(thread)\n    if q is None:\n        q = QueuedCallback._GLOBAL_QUEUE[thread] = Queue()\n    return q\n")], E),
    ("q-defaultdict", Q, [("from queue", "from collections import defaultdict\nfrom queue"), ("_GLOBAL_QUEUE: ClassVar[dict[Thread, Queue[CbArgsTuple]]] = {}", "_GLOBAL_QUEUE: ClassVar[dict[Thread, Queue[CbArgsTuple]]] = defaultdict(Queue)"), (TQ, "    return QueuedCallback._GLOBAL_QUEUE[thread]\n")], E),
    ("q-pernode", Q, [("_thread_queue(self._cbthread).put(", "Queue().put(")], E),
    ("q-qt-reconnect", "qt.py", [("        _TIMERS[_thread].timeout.connect(emit_queued)", "    _TIMERS[_thread].timeout.connect(emit_queued)")], E),
    ("same-q-cb", Q, [(CB, """        thread = self._cbthread
        if current_thread() is not thread:
            _thread_queue(thread).put((self._wrapped.cb, args))
            return
        self._wrapped.cb(args)
""")], set()),
    ("same-q-cb2", Q, [(CB, """        if self._is_local():
            self._wrapped.cb(args)
        else:
            item = (self._wrapped.cb, args)
            _thread_queue(self._cbthread).put_nowait(item)

    def _is_local(self):
        return self._cbthread is current_thread()
""")], set()),
    ("same-q-thread", Q, [('if thread is None or thread == "main":', 'if thread in (None, "main"):')], set()),
    ("same-q-drain", Q, [(DR, """    while True:
        try:
            item = queue.get(block=False)
        except Empty:
            break
        func, arguments = item
        try:
            func(arguments)
        except Exception as exc:
            raise EmitLoopError(exc=exc) from exc
""")], set()),
    ("same-q-drain-helper", Q, [(DR, """    while (item := _pop(queue)) is not None:
        _run(*item)


def _pop(queue):
    try:
        return queue.get_nowait()
    except Empty:
        return None


def _run(cb, args):
    try:
        cb(args)
    except Exception as e:
        raise EmitLoopError(exc=e) from e
""")], set()),
    ("same-q-lock", Q, [(TQ, """    with _LOCK:
        if thread not in QueuedCallback._GLOBAL_QUEUE:
            QueuedCallback._GLOBAL_QUEUE[thread] = Queue()
        return QueuedCallback._GLOBAL_QUEUE[thread]
"""), ("from threading import Thread,", "from threading import Lock, Thread,"), ("class QueuedCallback(", "_LOCK = Lock()\n\n\nclass QueuedCallback(")], set()),
    ("same-q-fields", Q, [("        self._max_args: int | None = wrapped._max_args\n        self._alive: bool = wrapped._alive\n        self._on_ref_error = wrapped._on_ref_error\n", "        for name in (\"_max_args\", \"_alive\", \"_on_ref_error\"):\n            setattr(self, name, getattr(wrapped, name))\n")], set()),
]
