"""C29: throttled and debounced callables (everything but the wall clock)."""

from __future__ import annotations

from ..q import deep, place
from ..terms import C, NONE, is_const, show, subst, walk
from . import prop
from .queue import resolve

SELF = ("param", "self")


class Shape:
    """What the fields of a throttled callable are for, read off what its methods store."""

    def __init__(self, r, cname):
        self.r, self.name = r, cname
        self.cls = r.p.find_class(cname)
        r.need(self.cls, f"{cname} is gone")
        self.init = self.meth("__init__")
        self.callm = self.meth("__call__")
        a = [p.arg for p in self.init.node.args.args[1:]]
        r.need(len(a) >= 3, f"{cname} takes no function, interval and policy")
        self.func, self.interval, self.policy = (("param", n) for n in a[:3])
        self.fields = {}       # field -> value after construction
        for x in r.run(self.init, self.cls):
            if x.kind == "ret":
                for e, _ in deep(x.events):
                    if e.kind == "store" and e.recv == SELF and (
                            e.name not in self.fields or is_const(self.fields[e.name])):
                        self.fields[e.name] = e.args[0]  # (paths without the attribute use a default)
        va, kw = self.callm.node.args.vararg, self.callm.node.args.kwarg
        r.need(va and kw, f"{cname}.__call__ does not take any arguments")
        self.va, self.kw = ("param", "*" + va.arg), ("param", "**" + kw.arg)
        self.calls = r.run(self.callm, self.cls)
        self.latest = {}       # field -> value that every call leaves there before anything else
        for x in self.calls:
            mine = {}
            for e, _ in deep(x.events):
                if e.kind == "store" and e.recv == SELF and e.name not in mine:
                    mine[e.name] = e.args[0]
                if self.is_func(e):
                    break
            self.latest = mine if not self.latest else {
                k: v for k, v in self.latest.items() if mine.get(k) == v}
        self.cancel = self.meth("cancel")
        self.cancels = r.run(self.cancel, self.cls)
        off = {}
        for x in self.cancels:
            for e, _ in deep(x.events):
                if e.kind == "store" and e.recv == SELF and e.args[0] in (C(False), NONE):
                    off[e.name] = e.args[0]
        self.timer = next((e.recv[2] for x in self.calls for e, _ in deep(x.events)
                           if e.kind == "call" and e.name == "is_alive" and e.recv[0] == "attr"
                           and e.recv[1] == SELF), None)
        p = [k for k in off if k in self.latest and k != self.timer]
        self.pending = p[0] if p else None

    def meth(self, n):
        m = self.r.p.lookup(self.cls, n)
        self.r.need(m and m[0] == "method", f"{self.name}.{n} is gone")
        return m[1]

    def is_func(self, e):
        """Does event e call the wrapped function?"""
        if e.kind != "call":
            return False
        fs = [k for k, v in self.fields.items() if v == self.func]
        f = place(e.fn) if e.fn else None
        return e.recv == SELF and e.name in fs or f is not None and f[0] == "attr" and (
            f[1] == SELF and f[2] in fs)

    def value(self, t, x, e):
        """t with the fields replaced by what the latest call left in them."""
        t = place(t)
        for _ in range(3):
            t = subst(t, {("attr", SELF, k): v for k, v in self.latest.items()})
        return resolve(t)

    def kept(self, t):
        """t with the fields replaced by what the constructor put there."""
        return subst(place(t), {("attr", SELF, k): v for k, v in self.fields.items()})

    def idle(self, x):
        """Is no timer running, as far as this path knows? None: not looked at"""
        out = None
        for a, p, _ in x.facts:
            t = place(a[2])
            if a[1] == "is" and NONE in a[2:4] and ("attr", SELF, self.timer) in (t, place(a[3])) and p:
                return True
            if a[1] not in ("truth", "truthv") or t[0] != "call" or t[1][0] != "attr":
                continue
            if t[1][2] == "is_alive":
                out = not p if out is None else out
            if t[1][2] in ("is_set", "isSet") and p:
                return True
        return out

    def leading(self, x):
        for a, p, _ in x.facts:
            ts = [self.kept(t) for t in a[2:4] if isinstance(t, tuple)]
            if a[1] in ("==", "is") and self.policy in ts:
                for v, y in (("leading", p), ("trailing", not p)):
                    if C(v) in ts:
                        return y
            if a[1] in ("truth", "truthv") and ts and ts[0][0] == "op" and ts[0][1] in ("==", "is") and (
                    self.policy in ts[0][2:4]):
                for v, y in (("leading", p), ("trailing", not p)):
                    if C(v) in ts[0][2:4]:
                        return y
        return None

    def waiting(self, x):
        """Is a call pending, as far as this path knows?"""
        f = ("attr", SELF, self.pending)
        for a, p, _ in x.facts:
            if a[1] in ("truth", "truthv") and place(a[2]) == f:
                return p
            if a[1] in ("is", "==") and f in (place(a[2]), place(a[3])):
                o = a[3] if place(a[2]) == f else a[2]
                if o in (NONE, C(False)):
                    return not p
                if o == C(True):
                    return p
        return None

    def started(self, x):
        """(event of the start, timer made, event of its making) of every timer started."""
        made = {e.res: e for e, _ in deep(x.events) if e.kind == "call" and e.name == "Timer" and e.res}
        cur = None
        out = []
        for e, _ in deep(x.events):
            if e.kind == "store" and e.recv == SELF and e.name == self.timer:
                cur = e.args[0]
            if e.kind == "call" and e.name == "start":
                t = e.recv if e.recv in made else cur if place(e.recv) == ("attr", SELF, self.timer) else None
                out.append((e, t, made.get(t)))
        return out

    def final_timer(self, x):
        cur = None
        for e, _ in deep(x.events):
            if e.kind == "store" and e.recv == SELF and e.name == self.timer:
                cur = e.args[0]
        return cur


def order(x):
    return {id(e): i for i, (e, _) in enumerate(deep(x.events))}


@prop("C29", 60)
def c29(r):
    r.rule("C29.latest", "every call is remembered with its arguments, as the pending one, before "
                         "anything else, and the function is only ever called with the arguments of "
                         "the latest call")
    r.rule("C29.edge", "with no timer running a leading call runs the function at once, exactly "
                       "once; a trailing one never does; with a timer running no call does")
    r.rule("C29.throttle", "a throttled call starts the timer only when none runs, so calls cannot "
                           "postpone the pending one")
    r.rule("C29.debounce", "every debounced call starts the wait again: the running timer is "
                           "cancelled and a new one started")
    r.rule("C29.timer", "a timer waits for the interval given, runs the pending call and is the one "
                        "remembered; the timer it replaces is cancelled")
    r.rule("C29.pending", "when the timer ends or on flush the pending call runs exactly once and is "
                          "then no longer pending; nothing runs when none is pending")
    r.rule("C29.restart", "each run of the function starts a new interval")
    r.rule("C29.cancel", "cancel runs nothing, forgets the pending call, stops the timer, and the "
                         "next call counts as the first")
    r.rule("C29.deco", "throttled and debounced pass function, timeout and edge on, in both forms")
    r.rule("C29.looks", "the result carries the name, docstring and signature of the function")
    for cname in ("Throttler", "Debouncer"):
        s = Shape(r, cname)
        r.need(s.timer, f"{cname} does not look at its timer")
        step(r, s)
        ending(r, s)
        looks(r, s)
    deco(r, "throttled", "Throttler", True)
    deco(r, "debounced", "Debouncer", False)


def step(r, s):
    f, tag = s.callm, s.name
    r.ob("C29.latest", f"{tag}:pending", s.pending is not None, "no call is remembered as pending, or "
         "cancelling does not forget it", f.node, f)
    n = {True: 0, False: 0}
    for x in s.calls:
        if x.kind != "ret":
            continue
        o = order(x)
        runs = [e for e, _ in deep(x.events) if s.is_func(e)]
        idle, lead = s.idle(x), s.leading(x)
        for e in runs:
            args(r, s, x, e, tag)
        want = 1 if idle and lead else 0
        if runs and (idle is None or lead is None):
            r.fail("C29.edge", f"{tag}:blind", "the function is run without looking at "
                   + ("the timer" if idle is None else "the edge asked for"), runs[0].node, runs[0].func)
        elif idle is not None and (lead is not None or idle is False):
            r.ob("C29.edge", f"{tag}:{'idle' if idle else 'running'}:{'lead' if lead else 'trail'}",
                 len(runs) == want, f"the function runs {len(runs)} times", f.node, f)
            n[idle] += 1
        st = s.started(x)
        if s.name == "Throttler" and idle is False:
            stops = [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "cancel"]
            r.ob("C29.throttle", f"{tag}:postponed", not st and not stops and s.final_timer(x) is None,
                 "a call made while the timer runs touches the timer", f.node, f)
        if s.name == "Throttler" and idle:
            r.ob("C29.throttle", f"{tag}:started", bool(st), "nothing will run the next pending call", f.node, f)
        if s.name == "Debouncer":
            stops = [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "cancel"
                     and place(e.recv) == ("attr", SELF, s.timer)]
            r.ob("C29.debounce", f"{tag}:again", bool(st) and (bool(stops) or bool(idle)), "a call does not "
                 "start the wait again", f.node, f)
            if runs and st:
                r.ob("C29.debounce", f"{tag}:after", o[id(st[-1][0])] > o[id(runs[-1])],
                     "the wait starts before the function runs", st[-1][0].node, st[-1][0].func)
        timers(r, s, x, st, tag, idle, runs)
        if runs:
            handled(r, s, x, runs, o, tag, "call")
            r.ob("C29.restart", f"{tag}:call", any(o[id(e)] > o[id(runs[-1])] for e, *_ in st),
                 "running the function starts no interval", runs[-1].node, runs[-1].func)
    r.need(n[True] and n[False], f"{tag}.__call__ could not be followed")


def args(r, s, x, e, tag):
    a = [t for t in e.args]
    k = list(e.kw)
    ok = len(a) == 1 and a[0][0] == "star" and s.value(a[0][1], x, e) == s.va
    r.ob("C29.latest", f"{tag}:args", ok, f"the function is called with {[show(t) for t in a]}", e.node, e.func)
    ok = len(k) == 1 and k[0][0] == "**" and s.value(k[0][1], x, e) == s.kw
    r.ob("C29.latest", f"{tag}:kwargs", ok, f"the function is called with {[show(v) for _, v in k]}",
         e.node, e.func)


def handled(r, s, x, runs, o, tag, where):
    """The pending mark is gone before the function runs (a call it makes is a new one)."""
    if s.pending is None:
        return
    for e in runs:
        last = None
        for d, _ in deep(x.events):
            if d.kind == "store" and d.recv == SELF and d.name == s.pending and o[id(d)] < o[id(e)]:
                last = d.args[0]
        r.ob("C29.pending", f"{tag}:{where}:cleared", last in (C(False), NONE), "the call that runs stays "
             "pending while the function runs", e.node, e.func)
        later = [d for d, _ in deep(x.events) if d.kind == "store" and d.recv == SELF
                 and d.name == s.pending and o[id(d)] > o[id(e)]]
        r.ob("C29.pending", f"{tag}:{where}:kept", not later, "a call made while the function runs is "
             "forgotten", e.node, e.func)


def timers(r, s, x, st, tag, idle, runs):
    o = order(x)
    prev = -1
    cur = s.final_timer(x)
    for i, (e, t, m) in enumerate(st):
        if not r.ob("C29.timer", f"{tag}:made", m is not None, "what is started is not a new timer", e.node, e.func):
            continue
        kw = dict(m.kw)
        iv = m.args[0] if m.args else kw.get("interval")
        cb = m.args[1] if len(m.args) > 1 else kw.get("function")
        r.ob("C29.timer", f"{tag}:interval", seconds(s, iv), f"the timer waits for {show(iv)}", m.node, m.func)
        stops = [d for d, _ in deep(x.events) if d.kind == "call" and d.name == "cancel" and
                 prev < o[id(d)] < o[id(e)] and (place(d.recv) == ("attr", SELF, s.timer)
                                                  or i and d.recv == st[i - 1][1])]
        r.ob("C29.timer", f"{tag}:replaced", bool(stops) or bool(idle) and not runs, "a timer is started "
             "while another may run: the function can run twice in one interval", e.node, e.func)
        prev = o[id(e)]
        expire(r, s, cb, m, tag)
    if st:
        r.ob("C29.timer", f"{tag}:remembered", cur is not None and cur == st[-1][1], "the timer started is "
             "not the one remembered", st[-1][0].node, st[-1][0].func)


def seconds(s, t):
    t = s.kept(t)
    if t[0] == "op" and t[1] == "/":
        return t[2] == s.interval and is_const(t[3]) and t[3][2] == 1000
    if t[0] == "op" and t[1] == "*":
        return s.interval in t[2:4] and any(is_const(u) and abs(u[2] - 0.001) < 1e-12 for u in t[2:4])
    return False


def expire(r, s, cb, m, tag):
    done = s.__dict__.setdefault("_done", set())
    if cb in done:
        return
    done.add(cb)
    if not r.ob("C29.timer", f"{tag}:target", cb is not None and cb[0] == "bound" and cb[1] == SELF,
                f"the timer runs {show(cb) if cb else 'nothing'}", m.node, m.func):
        return
    f = r.p.funcs[cb[2]]
    m = r.p.lookup(s.cls, f.name)
    runner(r, s, m[1] if m and m[0] == "method" else f, "expiry")


def runner(r, s, f, where):
    tag, n = s.name, 0
    for x in r.run(f, s.cls):
        if x.kind != "ret":
            continue
        n += 1
        o = order(x)
        runs = [e for e, _ in deep(x.events) if s.is_func(e)]
        w = s.waiting(x)
        if runs and w is None:
            r.fail("C29.pending", f"{tag}:{where}:blind", "the function runs whether or not a call is pending",
                   runs[0].node, runs[0].func)
            continue
        r.ob("C29.pending", f"{tag}:{where}:{'some' if w else 'none'}", len(runs) == (1 if w or w is None else 0),
             f"the function runs {len(runs)} times", f.node, f)
        for e in runs:
            args(r, s, x, e, tag)
        handled(r, s, x, runs, o, tag, where)
        st = s.started(x)
        if runs:
            r.ob("C29.restart", f"{tag}:{where}", any(o[id(e)] > o[id(runs[-1])] for e, *_ in st),
                 "running the function starts no interval", runs[-1].node, runs[-1].func)
        if where == "flush" and not runs:
            stops = [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "cancel"
                     and place(e.recv) == ("attr", SELF, s.timer)]
            r.ob("C29.pending", f"{tag}:flush:wait", not stops and not st and s.final_timer(x) is None,
                 "flushing when nothing is pending ends or moves the wait", f.node, f)
        timers(r, s, x, st, tag, None, runs)
    r.need(n, f"{f.qual} never returns")


def ending(r, s):
    tag, f = s.name, s.cancel
    runner(r, s, s.meth("flush"), "flush")
    for x in s.cancels:
        r.ob("C29.cancel", f"{tag}:quiet", x.kind == "ret" and not any(s.is_func(e) for e, _ in deep(x.events)),
             "cancel runs the function or raises", f.node, f)
        end = None
        for e, _ in deep(x.events):
            if e.kind == "store" and e.recv == SELF and e.name == s.pending:
                end = e.args[0]
        r.ob("C29.cancel", f"{tag}:pending", s.pending is None or end in (C(False), NONE)
             or s.waiting(x) is False, "the pending call is not forgotten", f.node, f)
        stops = [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "cancel"
                 and place(e.recv) == ("attr", SELF, s.timer)]
        r.ob("C29.cancel", f"{tag}:stopped", bool(stops), "the timer is not stopped", f.node, f)
        r.ob("C29.cancel", f"{tag}:started", not s.started(x), "cancel starts a timer", f.node, f)
        t = s.final_timer(x)
        looked = any(place(a[2])[0] == "call" and place(a[2])[1][0] == "attr" and
                     place(a[2])[1][2] in ("is_set", "isSet") for c in s.calls for a, _, _ in c.facts
                     if isinstance(a[2], tuple))
        r.ob("C29.cancel", f"{tag}:first", t is not None or looked, "a cancelled timer still counts as running "
             "for a moment, and a call made then is never run", f.node, f)


LOOKS = ("__module__", "__name__", "__qualname__", "__doc__")


def looks(r, s):
    f = s.init
    for n in LOOKS:
        v = s.fields.get(n)
        r.ob("C29.looks", f"{s.name}:{n}", v is not None and any(
            u[0] == "op" and u[1] == "getattr" and u[2] == s.func and u[3] == C(n)
            or u[0] == "attr" and u[1] == s.func and u[2] == n for u in walk(v)),
            f"{n} is {show(v) if v else 'its own'}", f.node, f)
    r.ob("C29.looks", f"{s.name}:__wrapped__", s.fields.get("__wrapped__") == s.func,
         "__wrapped__ is not the function", f.node, f)
    m = r.p.lookup(s.cls, "__signature__")
    if not (m and m[0] == "method"):
        r.note("the signature of a throttled callable is not decided")
        return
    for x in r.run(m[1], s.cls, noise=False):
        ok = x.kind == "ret" and any(s.kept(u) == s.func for u in walk(x.val)) and "signature" in show(x.val)
        r.ob("C29.looks", f"{s.name}:__signature__", ok, f"the signature is {show(x.val) if x.val else ''}",
             m[1].node, m[1])


def deco(r, fn, cname, lead):
    f = r.p.find_func(fn)
    r.need(f, f"{fn} is gone")
    cls = r.p.find_class(cname)
    forms = {"direct": f"{fn}(fun, timeout=time, leading=lead)",
             "options": f"{fn}(timeout=time, leading=lead)(fun)",
             "bare": f"{fn}(fun)", "empty": f"{fn}()(fun)"}
    fun, time, ld = ("param", "fun"), ("param", "time"), ("param", "lead")
    for key, src in forms.items():
        given = key in ("direct", "options")
        n = 0
        text = (f"from {f.module.name} import {fn}\ndef client(fun, time, lead):\n    return {src}\n")
        for x in r.client(f"{fn}:{key}", text, opaque={"_ThrottlerBase.__init__", f"{cname}.__init__"},
                          opaque_classes={cname}):
            if any(a[1] in ("is", "truth", "truthv") and fun in a[2:4] and p == (a[1] == "is")
                   for a, p, _ in x.facts):
                continue  # (a function is an object)
            if x.kind != "ret":
                r.fail("C29.deco", f"{fn}:{key}:raises", "it raises", f.node, f)
                continue
            n += 1
            al = [e for e, _ in deep(x.events) if e.kind == "alloc" and e.res == x.val]
            if not r.ob("C29.deco", f"{fn}:{key}:made", len(al) == 1 and al[0].res[2] == cls.qual,
                        f"{show(x.val)} is made", f.node, f):
                continue
            e = al[0]
            names = ["func", "interval", "policy"]
            got = dict(zip(names, e.args)) | {k: v for k, v in e.kw}
            r.ob("C29.deco", f"{fn}:{key}:func", got.get("func") == fun, f"it wraps {show(got.get('func', NONE))}",
                 f.node, f)
            iv = got.get("interval", C(100))
            r.ob("C29.deco", f"{fn}:{key}:timeout", iv == (time if given else C(100)),
                 f"the interval is {show(iv)}", f.node, f)
            want = next((p for a, p, _ in x.facts if a[1] in ("truth", "truthv") and a[2] == ld), None) \
                if given else lead
            pol = got.get("policy", C("leading" if cname == "Throttler" else "trailing"))
            r.ob("C29.deco", f"{fn}:{key}:edge", want is not None and pol == C("leading" if want else "trailing"),
                 f"the edge is {show(pol)}", f.node, f)
        r.need(n, f"{src} could not be followed")
