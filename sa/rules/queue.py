"""C19: callbacks connected to a thread are queued for it and run by emit_queued."""

from __future__ import annotations

import ast

from ..q import calls, deep, fact, place
from ..terms import C, NONE, is_const, show, subst, walk
from . import prop

WRAPPED, THREAD, ARGS = ("param", "wrapped"), ("param", "thread"), ("param", "args")
CUR, MAIN = "current_thread", "main_thread"
PUTS = {"put", "put_nowait", "append"}
GETS = {"get", "get_nowait", "popleft", "pop"}
BASE = "from psygnal._queue import QueuedCallback\ndef client(wrapped, thread, args):\n" \
       "    q = QueuedCallback(wrapped, thread=thread)\n"


def is_call_of(t, name):
    return t[0] == "call" and t[1][0] == "ext" and t[1][1].split(".")[-1] == name


def eqc(x, v):
    return fact(x, lambda a: a[1] in ("==", "is") and place(a[2]) == THREAD and a[3] == v) or fact(
        x, lambda a: a[1] == "in" and place(a[2]) == THREAD and a[3][0] == "tuple"
        and v in a[3][1] and len(a[3][1]) == 1)


def in_both(x):
    """thread in (None, "main") style tests."""
    for a, p, _ in x.facts:
        if a[1] == "in" and place(a[2]) == THREAD and a[3][0] == "tuple" and p:
            return a[3][1]
    return ()


def wanted(x):
    """The thread the callback is for, on this path: main / current / param / None (refused)."""
    if eqc(x, NONE) or eqc(x, C("main")) or (
            in_both(x) and set(in_both(x)) <= {NONE, C("main")}):
        return MAIN
    if eqc(x, C("current")):
        return CUR
    for a, p, _ in x.facts:
        if a[1] == "isinstance" and place(a[2]) == THREAD and show(a[3]) == "Thread":
            return "param" if p else None
    return "param"


def is_thread(t, w):
    t = place(t)
    return t == THREAD if w == "param" else is_call_of(t, w)


def same_thread(x, w):
    """Is the current thread the wanted one on this path? (None: not tested)"""
    if w == CUR:
        return True
    for a, p, _ in x.facts:
        if a[1] in ("is", "==") and any(is_call_of(place(u), CUR) for u in a[2:4]):
            other = [u for u in a[2:4] if not is_call_of(place(u), CUR)]
            if other and is_thread(other[0], w):
                return p
            if other and not is_const(other[0]):
                return ("other", other[0])
        if a[1] in ("is", "==") and all(reusable(u) for u in a[2:4]):
            return "unknown"
    return None


def reusable(t):
    """A thread's identifier or name: other threads may have or get the same."""
    t = place(t)
    if t[0] == "attr":
        return t[2] in ("ident", "native_id", "name", "_ident")
    if t[0] == "call":
        n = t[1][2] if t[1][0] == "attr" else str(t[1][1])
        return n.split(".")[-1] in ("get_ident", "get_native_id", "getName")
    return False


def queue_of(x, q):
    """(mapping, key) the queue was found under."""
    q0 = place(q)
    if q0[0] == "item":
        return q0[1], q0[2]
    for e, _ in deep(x.events):
        if e.kind == "call" and e.name == "setdefault" and len(e.args) > 1 and (
                e.args[1] == q or e.res == q):
            return place(e.recv), place(e.args[0])
        if e.kind == "setitem" and len(e.args) > 1 and e.args[1] == q:
            return place(e.recv), place(e.args[0])
    if q0[0] == "call" and q0[1][0] == "attr" and q0[1][2] in ("get", "setdefault") and q0[2]:
        return q0[1][1], q0[2][0]
    return None


def resolve(t):
    """item(tuple, i) -> element"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "item" and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] == "const":
        b = resolve(t[1])
        if b[0] == "tuple" and isinstance(t[2][2], int) and -len(b[1]) <= t[2][2] < len(b[1]):
            return b[1][t[2][2]]
    return tuple(resolve(u) if isinstance(u, tuple) else u for u in t)


def is_delivery(fn, recv, name, args, wrapped=WRAPPED, given=ARGS):
    fn, args = place(fn or NONE), [place(a) for a in args]
    if fn[0] == "partial":
        args = [*fn[2], *args]
        fn = fn[1]
    if fn[0] == "attr" and fn[1] == wrapped and fn[2] == "cb" and args == [given]:
        return True
    return fn == wrapped and args == [("star", given)]


@prop("C19", 30)
def c19(r):
    r.rule("C19.direct", "on its own thread the callback is delivered to at once, exactly once")
    r.rule("C19.queued", "on any other thread it is put, with its arguments, in the queue of its "
                         "thread, exactly once, and not called")
    r.rule("C19.thread", "None and 'main' mean the main thread, 'current' the connecting one, and "
                         "anything else that is not a thread is refused")
    r.rule("C19.fields", "the queued form has the key, limit, priority and names of its callback")
    r.rule("C19.drain", "emit_queued takes from the queue of the thread asked for (default: the "
                        "current one) until it is empty and calls each entry exactly once")
    r.rule("C19.block", "draining never blocks, even with several threads draining")
    r.rule("C19.order", "the queue is unbounded and first in, first out")
    r.rule("C19.atomic", "two threads never make different queues for one thread")
    r.rule("C19.qt", "the Qt timer is made once per thread and drains the queue")
    r.rule("C19.error", "an exception from a queued callback reaches the caller as EmitLoopError, "
                        "and the entries after it stay queued")
    store, put, cbname = delivering(r)
    draining(r, store, put)
    atomic(r)
    fields(r)
    qt(r)


def delivering(r):
    ps = r.client(("queue", "cb"), BASE + "    q.cb(args)\n    return q\n")
    store = put = None
    seen = set()
    for x in ps:
        w = wanted(x)
        loc = (x.events[-1].node, x.events[-1].func)
        if w is None:
            r.ob("C19.thread", "refuse", x.kind == "raise",
                 "something that is not a thread is accepted as thread", *loc)
            continue
        if x.kind != "ret":
            continue
        dl = [e for e, st in deep(x.events) if e.kind == "call" and is_delivery(
            e.fn, e.recv, e.name, e.args)]
        pu = [(e, st) for e, st in deep(x.events) if e.kind == "call" and e.name in PUTS
              and e.recv is not None and queue_of(x, e.recv)]
        same = same_thread(x, w)
        if isinstance(same, tuple):
            r.fail("C19.thread", w, f"the callback runs on {show(same[1])} although {w} thread was "
                   "asked for", *loc)
            continue
        if same == "unknown":
            r.fail("C19.direct", "identity", "the current thread is recognised by an identifier or name "
                   "that other threads may share or inherit", *loc)
            continue
        if same is None and not dl and not pu:
            r.note("thread test not decided")
            continue
        if same is None:
            # delivered without looking at the thread
            r.ob("C19.direct", w + ":test", not dl or len(pu) == 1 and not dl, "the callback is "
                 "called whatever the current thread is", *loc)
            continue
        seen.add(same)
        if same:
            r.ob("C19.direct", w, len(dl) == 1 and not pu,
                 f"on its own thread the callback is called {len(dl)} times and queued {len(pu)} "
                 "times", *loc)
            continue
        r.ob("C19.queued", w, len(pu) == 1 and not dl and not pu[0][1],
             f"on another thread the callback is called {len(dl)} times and queued {len(pu)} times",
             *loc)
        if len(pu) != 1:
            continue
        e = pu[0][0]
        m, k = queue_of(x, e.recv)
        r.ob("C19.thread", w + ":queue", is_thread(k, w),
             f"the callback is queued for {show(k)} instead of {w} thread", e.node, e.func)
        r.ob("C19.queued", "nowait", e.name != "put" or not e.kwd("timeout"), "", e.node, e.func)
        store, put = m, e.args[0] if e.args else NONE
    r.need(True in seen, "no direct delivery found in QueuedCallback.cb")
    for x in r.client(("queue", "new"), BASE + "    return q\n"):
        if x.kind == "ret" and wanted(x) == CUR:
            vals = [e.args[0] for e, _ in deep(x.events) if e.kind == "store"]
            r.ob("C19.thread", "current", any(is_call_of(place(v), CUR) for v in vals),
                 "'current' is not resolved to the connecting thread when connecting",
                 x.events[-1].node, x.events[-1].func)
    return store, put, None


def draining(r, store, put):
    f = r.p.find_func("emit_queued")
    r.need(f, "emit_queued is gone")
    ps = r.client(("queue", "drain"), "from psygnal import emit_queued\n"
                  "def client(thread):\n    emit_queued(thread)\n")
    n, sites = 0, {}
    for x in ps:
        none = fact(x, lambda a: a[1] == "is" and place(a[2]) == THREAD and a[3] == NONE)
        if none is None:
            t = fact(x, lambda a: a[1] in ("truth", "truthv") and place(a[2]) == THREAD)
            none = None if t is None else not t
        w = CUR if none else "param"
        for e, st in deep(x.events):
            if e.kind != "call" or e.name not in GETS or e.recv is None:
                continue
            q = queue_of(x, e.recv)
            if q is None:
                continue
            n += 1
            m, k = q
            loc = (e.node, e.func)
            r.ob("C19.drain", f"{w}:thread", is_thread(k, w),
                 f"emit_queued drains the queue of {show(k)}", *loc)
            if store is not None:
                r.ob("C19.drain", "store", m == store, "emit_queued drains other queues than those "
                     "callbacks are put in", *loc)
            blocking = e.name == "get" and not (
                dict(e.kw).get("block") == C(False) or e.args[:1] == (C(False),)
                or "timeout" in dict(e.kw))
            r.ob("C19.block", "get", not blocking or bool(e.locks), "draining waits forever when "
                 "another thread takes the last entry", *loc)
            r.ob("C19.order", "get", e.name != "pop" or e.args[:1] == (C(0),),
                 "entries are taken newest first", *loc)
            r.ob("C19.drain", "loop", bool(st) or in_tail(x, e), "emit_queued takes one entry "
                 "only", *loc)
        if x.kind == "raise" and x.val[0] == "exc" and x.val[1] and x.val[1][1].endswith("Empty"):
            r.fail("C19.block", "empty", "emit_queued raises queue.Empty", f.node, f)
        judge_bodies(r, x, put)
        again(r, x)
        errors(r, x, f, sites)
        early(r, x)
    for e, caught in sites.values():
        r.ob("C19.error", "caught", caught, "an exception from a queued callback is not turned into "
             "EmitLoopError", e.node, e.func)
    r.need(n, "emit_queued takes nothing from a queue")


def again(r, x):
    """An entry that was called must not be put back."""
    evs = [e for e, _ in deep(x.events)]
    gets = [e.res for e in evs if e.kind == "call" and e.name in GETS and e.res and e.recv is not None
            and queue_of(x, e.recv)]
    called = {place(g) for _, g in entry_calls(evs, gets)}
    for e in evs:
        if e.kind == "call" and e.name in PUTS and e.recv is not None and queue_of(x, e.recv):
            r.ob("C19.drain", "again", not any(place(t) in called for a in e.args for t in walk(a)),
                 "an entry that was called is put back in the queue", e.node, e.func)


def early(r, x):
    """A return must come after the queue was found empty."""
    last = None
    for e, st in deep(x.events):
        if st or e.kind != "call" or e.recv is None:
            continue
        if e.name in (*GETS, "empty", "qsize") and queue_of(x, e.recv):
            last = e
    if x.kind == "ret" and last is not None and last.name in GETS and not any(
            p and a[1] == "is" and a[3] == NONE and place(a[2]) == place(last.res or ())
            for a, p, _ in x.facts):
        r.ob("C19.drain", "early", (last.extra or {}).get("raised"), "emit_queued returns before "
             "the queue is empty", last.node, last.func)


def in_tail(x, e):
    return any(o.kind == "loop" for o in x.events)


def entry_calls(evs, gets):
    """Calls of what was taken from the queue."""
    out = []
    for e in evs:
        if e.kind == "call" and e.fn is not None:
            g = [t for t in walk(e.fn) if t in gets]
            if g and e.name not in GETS:
                out.append((e, g[0]))
    return out


def judge_bodies(r, x, put):
    for lp, _ in ((e, s) for e, s in deep(x.events) if e.kind == "loop"):
        for b in lp.extra["bodies"]:
            gets = [e.res for e in b.events if e.kind == "call" and e.name in GETS and e.res
                    and e.recv is not None and queue_of(x, e.recv)]
            if not gets:
                continue
            cs = entry_calls(b.events, gets)
            if b.kind in ("ret", "break") and cs:
                r.fail("C19.drain", "early", "emit_queued stops before the queue is empty",
                       cs[-1][0].node, cs[-1][0].func)
            if b.kind in ("next", "cont", "fall", None) or cs:
                for g in gets:
                    mine = [e for e, h in cs if h == g]
                    r.ob("C19.drain", "each", len(mine) == 1,
                         f"an entry taken from the queue is called {len(mine)} times",
                         (mine[0] if mine else b.events[-1]).node,
                         (mine[0] if mine else b.events[-1]).func)
                    if mine and put is not None and put[0] == "tuple":
                        e = mine[0]
                        fn = place(resolve(subst(e.fn, {g: put})))
                        args = [resolve(subst(a, {g: put})) for a in e.args]
                        r.ob("C19.drain", "call", is_delivery(fn, None, "", args),
                             f"a queued entry is called as {show(fn)}({', '.join(map(show, args))})",
                             e.node, e.func)
            elif gets and b.kind not in ("raise",):
                r.fail("C19.drain", "each", "an entry taken from the queue is not called",
                       b.events[-1].node, b.events[-1].func)


def errors(r, x, f, sites):
    for evs, kind, val, facts in [([e for e, st in deep(x.events) if not st], x.kind, x.val, x)] + [
            (b.events, b.kind, b.val, b) for lp, _ in deep(x.events) if lp.kind == "loop"
            for b in lp.extra["bodies"]]:
        gets = [e.res for e in evs if e.kind == "call" and e.name in GETS and e.res
                and e.recv is not None and queue_of(x, e.recv)]
        cs = [e for e, _ in entry_calls(evs, gets)]
        for e in cs:
            sites.setdefault(e.node, [e, False])
        failed = [e for e in cs if (e.extra or {}).get("raised")]
        if not failed:
            continue
        e = failed[-1]
        sites[e.node][1] = True
        isexc = fact(facts, lambda a: a[1] == "isinstance" and a[2][0] == "exc"
                     and show(a[3]) == "Exception")
        if kind != "raise":
            r.fail("C19.error", "swallow", "an exception from a queued callback is swallowed",
                   e.node, e.func)
        elif isexc is not False:
            ok = val[0] == "obj" and val[2].endswith("EmitLoopError")
            r.ob("C19.error", "kind", ok, f"an exception from a queued callback is raised as "
                 f"{show(val)}", e.node, e.func)
        r.ob("C19.error", "rest", len(gets) <= 1 or not_ahead(evs, gets),
             "entries are taken from the queue before the ones before them were called: an "
             "exception loses them", e.node, e.func)


def not_ahead(evs, gets):
    """No entry is taken while an earlier one was not called."""
    open_ = []
    for e in evs:
        if e.kind == "call" and e.res in gets and e.name in GETS:
            if open_:
                return False
            open_.append(e.res)
        elif e.kind == "call" and e.fn is not None:
            for t in walk(e.fn):
                if t in open_:
                    open_.remove(t)
    return True


def atomic(r):
    f = r.p.find_func("emit_queued")
    m = f.module
    n = 0
    for node in ast.walk(m.tree):
        if isinstance(node, ast.ImportFrom):
            for al in node.names:
                if al.name in ("LifoQueue", "PriorityQueue"):
                    r.fail("C19.order", al.name, f"callbacks are queued in a {al.name}", node, f)
        if isinstance(node, ast.Call):
            nm = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(
                node.func, "id", "")
            if nm == "defaultdict":
                r.fail("C19.atomic", "defaultdict", "the queue of a thread is made by a "
                       "defaultdict, whose check and insertion are not one step", node, f)
            if nm in ("LifoQueue", "PriorityQueue"):
                r.fail("C19.order", nm, f"callbacks are queued in a {nm}", node, f)
            if nm in ("Queue", "deque"):
                mx = [a for a in node.args[(1 if nm == "deque" else 0):]] + [
                    k.value for k in node.keywords if k.arg in ("maxsize", "maxlen")]
                bad = [a for a in mx if not (isinstance(a, ast.Constant) and not a.value)]
                n += 1
                r.ob("C19.order", "bound", not bad, "the queue has a maximum size", node, f)
    for key in (("queue", "cb"), ("queue", "drain")):
        for x in r.p.__dict__["_clients"][key][1]:
            for e, _ in deep(x.events):
                if e.kind == "setitem" and e.args[1:] and e.args[1][0] == "new" and \
                        "Queue" in e.args[1][1]:
                    r.ob("C19.atomic", "setitem", bool(e.locks), "the queue of a thread is looked "
                         "up and inserted in two steps", e.node, e.func)
                elif e.kind == "call" and e.name == "setdefault":
                    r.ob("C19.atomic", "setdefault", True, "", e.node, e.func)


def fields(r):
    base = r.p.find_class("WeakCallback")
    want = set()
    init = base.methods.get("__init__") if base else None
    r.need(init, "WeakCallback.__init__ is gone")
    for n in ast.walk(init.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(
                n.value, ast.Name) and n.value.id == init.node.args.args[0].arg:
            want.add(n.attr)
    c = r.p.find_class("QueuedCallback")
    for x in r.client(("queue", "new"), BASE + "    return q\n"):
        if x.kind != "ret":
            continue
        got = {}
        for e, _ in deep(x.events):
            if e.kind == "store" and e.recv == x.val:
                got[e.name] = e
        for n in sorted(want):
            if n in c.methods:
                continue
            e = got.get(n)
            miss = fact(x, lambda a: a[1] == "hasattr" and place(a[2]) == WRAPPED
                        and a[3] == C(n)) is False
            ok = e is not None and (place(e.args[0]) == ("attr", WRAPPED, n) or miss)
            r.ob("C19.fields", n, ok, f"the queued form of a callback "
                 + (f"has {show(e.args[0])} as {n}" if e else f"has no {n}"),
                 (e or x.events[-1]).node, (e or x.events[-1]).func)
    for x in r.client(("queue", "deref"), BASE + "    return q.dereference()\n"):
        if x.kind == "ret":
            v = place(x.val)
            r.ob("C19.fields", "dereference", v[0] == "call" and v[1] == (
                "attr", WRAPPED, "dereference"), f"dereferencing gives {show(v)}",
                x.events[-1].node, x.events[-1].func)


def qt(r):
    """The Qt timer that drains the queue."""
    f = r.p.find_func("start_emitting_from_queue")
    if f is None:
        r.note("no Qt timer")
        return
    for x in r.run(f):
        if x.kind != "ret":
            continue
        cs = [e for e in calls(x.events, "connect") if any(
            "emit_queued" in show(a) for a in e.args)]
        made = [e for e in calls(x.events, "QTimer")]
        st = [e for e in calls(x.events) if e.name in ("start", "setInterval")]
        loc = (f.node, f)
        r.ob("C19.qt", "once", len(cs) == len(made) <= 1, f"starting makes {len(made)} timers and "
             f"connects emit_queued {len(cs)} times", *loc)
        r.ob("C19.qt", "start", len(st) == 1 and ("param", "msec") in st[0].args,
             "the timer is not started with the interval asked for", *loc)
        for e in cs:
            r.ob("C19.qt", "target", "emit_queued" in show(e.args[0]), "", *loc)
