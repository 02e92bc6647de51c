"""C14-C16: blocking, pausing, and the scoped forms of both."""

from __future__ import annotations

import ast

from ..q import SELF, calls, deep, place, truth_of
from ..roles import signal_roles
from ..terms import C, NONE, is_const, show, walk
from . import prop

IMP = "from psygnal import SignalInstance\nfrom psygnal._group import SignalRelay\n"


def P_(n):
    return ("param", n)


def deliver_name(r):
    """The method emit and resume hand an emission to."""
    c = r.p.find_class("SignalInstance")
    found = []
    for m in ("emit", "resume"):
        f = r.p.method(c, m)
        r.need(f, f"SignalInstance.{m} is gone")
        seen = {}
        todo = [f]
        while todo:
            g = todo.pop()
            me = g.node.args.args[0].arg if g.node.args.args else None
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and n.func.value.id == me and n.args:
                    if n.func.attr not in seen:
                        seen[n.func.attr] = 1
                        h = r.p.method(c, n.func.attr)
                        if h is not None:
                            todo.append(h)
        found.append(seen)
    # the outermost common one through which everything reaches the callbacks
    slots = signal_roles(r).slots
    both = [n for n in found[0] if n in found[1]]
    reach = [n for n in both if slots in mentions(r.p, c, n)]
    for n in reach:
        direct = mentions(r.p, c, "emit", n) | mentions(r.p, c, "resume", n)
        if not any(k in direct and slots in mentions(r.p, c, k, n) for k in reach if k != n):
            return n
    return reach[0] if reach else both[-1] if both else None


def mentions(p, c, name, without=None):
    """Attributes of self that a method uses, directly or through methods (except one) that it
    calls by name or through an attribute that holds one."""
    alias = {}
    for g in c.methods.values():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                    n.targets[0], ast.Attribute):
                alias.setdefault(n.targets[0].attr, set()).update(
                    a.attr for a in ast.walk(n.value) if isinstance(a, ast.Attribute))
    seen, todo = set(), [name]
    while todo:
        k = todo.pop()
        if k in seen or k == without:
            continue
        seen.add(k)
        todo += alias.get(k, ())
        m = p.lookup(c, k)
        if m and m[0] == "method":
            f = m[1]
            todo += [a.attr for a in ast.walk(f.node) if isinstance(a, ast.Attribute)]
    return seen


def final(x, obj, name):
    return x.st.heap.get((obj, name))


def same(x, v, want):
    """v has the truth value of the parameter `want` on this path."""
    if v is None:
        return False
    if place(v) == want:
        return True
    t = truth_of(x, want)
    if is_const(v):
        return t is not None and bool(v[2]) == t
    u = truth_of(x, v)
    return u is not None and u == t


def valid(x):
    """Paths where the constructors succeeded."""
    return x.kind == "ret"


def delivered(x, dn, after=None):
    """The deliveries on this path (only those after the call of the parameter `after`)."""
    out = [] if after is None else None
    for e, _ in deep(x.events):
        if after is not None and e.kind == "call" and e.fn is not None and place(e.fn) == P_(after):
            out = []
        elif out is not None and e.kind == "call" and e.name == dn:
            out.append(e)
    return out or []


def appended(x, lst):
    return [e.args[0] for e, _ in deep(x.events) if e.kind == "call" and e.name == "append"
            and e.recv == lst and e.args]


def elts(x, t):
    el = x.st.heap.get((t, "$elts"))
    return None if el is None or any(e[0] != "item" for e in el) else [e[1] for e in el]


def tupof(*names):
    return ("tuple", tuple(P_(n) for n in names))


class Roles:
    def __init__(self, r):
        R = signal_roles(r)
        self.B, self.PZ, self.S, self.Q = R.blocked, R.paused, R.slots, R.argsq
        self.dn = deliver_name(r)
        self.R = R
        r.need(self.dn, "emit and resume share no delivering method")
        self.op = {self.dn}


def run(r, K, key, text):
    return [x for x in r.client(("state", key), IMP + text.replace("%B", K.B).replace(
        "%P", K.PZ).replace("%S", K.S).replace("%Q", K.Q), opaque=K.op)]


def where(x, dn=None):
    for e, _ in deep(x.events):
        if dn and e.kind == "call" and e.name == dn:
            return e.node, e.func
    e = x.events[-1]
    return e.node, e.func


@prop("C14", 10)
def c14(r):
    r.rule("C14.silent", "emitting a blocked signal (in any way, paused or not) delivers nothing, "
                         "queues nothing and raises nothing")
    r.rule("C14.off", "after unblocking, emissions are delivered again")
    r.rule("C14.first", "every emission method asks whether the signal is blocked before any effect")
    r.rule("C14.other", "no other operation changes whether a signal is blocked")
    K = Roles(r)
    c = r.p.find_class("SignalInstance")
    fm = r.p.method(c, "emit")
    for how, pre in (("blocked", ""), ("paused", "    sig.pause()\n"), ("later", "")):
        text = ("def client(a, b, c, cb):\n    sig = SignalInstance((int,), name='x')\n"
                "    sig.%S = [cb]\n" + pre + "    sig.block()\n"
                + ("    sig.pause()\n" if how == "later" else "") +
                "    sig.emit(a)\n    sig.emit_fast(b)\n    sig(c)\n"
                "    sig.emit(a, check_nargs=True, check_types=True)\n"
                "    return sig.%Q, sig.%B\n")
        n = 0
        for x in run(r, K, "silent-" + how, text):
            if x.kind == "raise" and not refused(x):
                continue
            n += 1
            d = delivered(x, K.dn) + [e for e in calls(x.events) if any(
                P_("cb") in walk(t) for t in (e.fn or (), e.recv or ()) if isinstance(t, tuple))]
            q = None if x.kind == "raise" else elts(x, x.val[1][0])
            r.ob("C14.silent", how, x.kind == "ret" and not d and not q,
                 f"emitting a blocked signal {'raises' if x.kind == 'raise' else 'delivers' if d else 'queues'}",
                 *((d[0].node, d[0].func) if d else (fm.node, fm)))
            if x.kind == "ret":
                r.ob("C14.silent", how + ":stays", x.val[1][1] == C(True),
                     "an emission unblocks the signal", fm.node, fm)
        r.need(n, "SignalInstance could not be followed")
    text = ("def client(a, cb):\n    sig = SignalInstance((int,), name='x')\n"
            "    sig.%S = [cb]\n    sig.block()\n    sig.block()\n    sig.emit(a)\n"
            "    sig.unblock()\n    fl = sig.%B\n    sig.emit(a)\n"
            "    sig.pause()\n    sig.block()\n    sig.unblock()\n    return fl, sig.%B\n")
    for x in run(r, K, "off", text):
        if valid(x):
            d = delivered(x, K.dn)
            r.ob("C14.off", "unblock", len(d) == 1 and d[0].args == (tupof("a"),) and x.val == ("tuple", (C(False),) * 2),
                 f"after unblocking, an emission is delivered {len(d)} times", *where(x, K.dn))
    first(r, K)
    other(r, K)


def refused(x):
    """Raised by something else than a constructor refusing its arguments."""
    return any(e.kind == "store" and e.name == "_slots" or e.kind == "setattr" for e in x.events) or (
        len([e for e in x.events if e.kind == "store"]) > 8)


def first(r, K):
    for cn in ("SignalInstance", "SignalRelay"):
        c = r.p.find_class(cn)
        if c is None:
            continue
        for m in ("emit", "emit_fast", "__call__"):
            f = r.p.method(c, m)
            if f is None:
                continue
            for x in r.run(f, c, opaque=K.op):
                t = truth_of(x, ("attr", SELF, K.B))
                eff = [e for e, _ in deep(x.events) if e.kind in ("raise", "store", "setitem")
                       and (e.kind == "raise" or e.recv == SELF)
                       or e.kind == "call" and (e.name == K.dn or e.recv is not None and place(
                           e.recv) in (K.R.argsq_t, K.R.emitq_t, K.R.slots_t)
                           or e.name == "cb" or e.fn is not None and "hook" in show(e.fn))]
                bad = eff[0] if eff and t is not False else None
                r.ob("C14.first", f"{cn}.{m}", bad is None, f"{m} "
                     f"{'ignores that the signal is blocked' if t is None else 'acts although blocked'}",
                     *((bad.node, bad.func) if bad else (f.node, f)))


def other(r, K):
    """Who writes the blocked flag?"""
    c = r.p.find_class("SignalInstance")
    for m in ("emit", "emit_fast", "pause", "resume", "connect", "disconnect", "paused", "__len__",
              "__contains__"):
        f = r.p.method(c, m)
        if f is None:
            continue
        for x in r.run(f, c, opaque=K.op | {"weak_callback"}):
            for e, _ in deep(x.events):
                if e.kind == "store" and e.recv == SELF and e.name in (K.B,):
                    r.fail("C14.other", m, f"{m} changes whether the signal is blocked", e.node, e.func)
        r.ob("C14.other", m, True)


@prop("C15", 10)
def c15(r):
    r.rule("C15.collect", "emitting a paused signal calls nobody and keeps the arguments, in order, "
                          "also through the group relay")
    r.rule("C15.resume", "resuming delivers what was collected, once, in order; with a reducer, one "
                         "emission of the reduced arguments")
    r.rule("C15.none", "resuming delivers nothing when nothing was collected or nobody is connected, "
                       "and nothing collected survives it")
    r.rule("C15.fresh", "before the first delivery the signal is no longer paused and its queue is "
                        "empty, so that callbacks may emit, pause and resume")
    r.rule("C15.check", "arguments refused by a check are not collected")
    K = Roles(r)
    H = "def client(a, b, c, cb, red, init, mark):\n    sig = SignalInstance((int,), name='x')\n" \
        "    sig.%S = [cb]\n    sig.pause()\n"
    EM = "    sig.emit(a)\n    sig.emit_fast(b, c)\n    sig(c)\n"
    want = [tupof("a"), tupof("b", "c"), tupof("c")]
    c = r.p.find_class("SignalInstance")
    fr, fe = r.p.method(c, "resume"), r.p.method(c, "emit")
    n = 0
    for x in run(r, K, "collect", H + EM + "    return sig.%Q, sig.%P\n"):
        if not valid(x):
            continue
        n += 1
        q, pz = x.val[1]
        r.ob("C15.collect", "queue", not delivered(x, K.dn) and elts(x, q) == want and pz == C(True),
             f"a paused signal collects {[show(t) for t in elts(x, q) or []]} and delivers "
             f"{len(delivered(x, K.dn))} emissions", fe.node, fe)
    r.need(n, "pausing could not be followed")
    for key, call in (("plain", ""), ("twice", "")):
        for x in run(r, K, "resume-" + key, H + EM + "    sig.resume()\n" + (
                "    sig.resume()\n    sig.pause()\n    sig.resume()\n" if key == "twice" else "")
                + "    return sig.%Q, sig.%P\n"):
            if x.kind != "ret":
                continue
            d = [e.args[0] for e in delivered(x, K.dn)]
            q, pz = x.val[1]
            r.ob("C15.resume", key, d == want, f"three collected emissions are resumed as "
                 f"{[show(t) for t in d]}", *where(x, K.dn))
            r.ob("C15.none", key + ":left", not elts(x, q) and pz == C(False),
                 "after resuming, collected emissions are left or the signal stays paused",
                 fr.node, fr)
            fresh(r, K, x)
    for x in run(r, K, "reduce", H + EM + "    sig.resume(red, init)\n    return sig.%Q\n"):
        if x.kind == "ret":
            reduced(r, K, x, want, P_("init"))
            fresh(r, K, x)
    for x in run(r, K, "reduce0", H + EM + "    sig.resume(red)\n    return sig.%Q\n"):
        if x.kind == "ret":
            reduced(r, K, x, want, None)
    for key, call, init in (("reduce1", "red, init", P_("init")), ("reduce10", "red", None)):
        for x in run(r, K, key, H + f"    sig.emit(a)\n    sig.resume({call})\n    return sig.%Q\n"):
            if x.kind == "ret":
                reduced(r, K, x, want[:1], init)
    # nobody connected / nothing collected
    for key, text in (
            ("noslots", "    sig.%S = []\n    sig.emit(a)\n    sig.resume()\n    n = sig.%Q\n"
                        "    mark()\n    sig.%S = [cb]\n    sig.resume()\n    return n, sig.%P\n"),
            ("nothing", "    sig.resume()\n    sig.resume(red)\n    sig.resume(red, init)\n"
                        "    return sig.%Q, sig.%P\n")):
        for x in run(r, K, key, H + text):
            if x.kind != "ret":
                continue
            d = delivered(x, K.dn, "mark" if key == "noslots" else None)
            red = [e for e in calls(x.events) if place(e.fn or NONE) == P_("red")
                   or P_("red") in e.args]
            r.ob("C15.none", key, not d and not red and not elts(x, x.val[1][0])
                 and x.val[1][1] == C(False),
                 "resuming " + ("with nobody connected" if key == "noslots" else "an empty queue")
                 + " delivers, reduces, or keeps something", fr.node, fr)
    relay(r, K)
    checks(r, K)


def reduced(r, K, x, want, init):
    d = delivered(x, K.dn)
    isnone = truth_of(x, P_("red"))
    for a, p, _ in x.facts:
        if a[1] == "is" and place(a[2]) == P_("red") and a[3] == NONE:
            isnone = not p
    loc = where(x, K.dn)
    if isnone is False:
        r.ob("C15.resume", "reducer=None", [e.args[0] for e in d] == want, "resuming without "
             "reducer does not deliver every emission", *loc)
        return
    if not r.ob("C15.resume", "reduced:once", len(d) == 1, f"resuming with a reducer delivers "
                f"{len(d)} emissions", *loc):
        return
    v = place(d[0].args[0])
    ok, what = False, show(v)
    can1, can2 = arity(x, 1), arity(x, 2)
    null = None
    for a, p, _ in x.facts:
        if a[1] == "is" and init is not None and any(place(t) == init for t in a[2:4]):
            null = p
    if v[0] == "call" and v[1] == P_("red"):
        ok = len(v[2]) == 1 and content(x, v[2][0], want) and can2 is not True
        what = "the one-argument form is used for a two-argument reducer: " + what if can2 else what
    elif v[0] == "call" and v[1][0] == "ext" and v[1][1].split(".")[-1] == "reduce":
        a = v[2]
        ok = len(a) in (2, 3) and a[0] == P_("red") and content(x, a[1], want) and can1 is not True
        if init is None or null:
            ok = ok and (len(a) == 2)
        else:
            ok = ok and len(a) == 3 and a[2] == init
    elif v[0] == "tuple":  # (a reducer with two parameters has nothing to do for one emission)
        ok = [v] == want and (init is None or bool(null)) and can1 is False
        what = f"{what}, which the reducer has not seen,"
    else:
        r.note(f"reduction {show(v)} not decided")
        return
    r.ob("C15.resume", "reduced", ok, f"with a reducer, {what} is emitted", *loc)


def arity(x, k):
    """Can the reducer have k parameters on this path?  None: the path does not look."""
    seen = None
    for a, p, _ in x.facts:
        if a[1] not in ("==", "<") or not any("parameters" in show(t) for t in a[2:4]):
            continue
        v = [t[2] if is_const(t) else k for t in a[2:4]]
        if not all(isinstance(t, int) for t in v):
            return None
        t = v[0] == v[1] if a[1] == "==" else v[0] < v[1]
        if t != p:
            return False
        seen = True
    return seen


def content(x, t, want):
    if t[0] == "list":
        return elts(x, t) == want or appended(x, t) == want
    if t[0] == "tuple":
        return list(t[1]) == want
    if t[0] == "call" and t[1][0] == "ext" and t[1][1].split(".")[-1] in ("list", "tuple", "iter"):
        return content(x, t[2][0], want)
    return False


def fresh(r, K, x):
    """State when the first delivery happens."""
    obj = next((e.recv for e in x.events if e.kind == "alloc" and e.name == "SignalInstance"), None)
    q = pz = None
    empty = None
    for e, _ in deep(x.events):
        if e.kind == "store" and e.recv == obj and e.name == K.Q:
            q = e.args[0]
            empty = True
        elif e.kind == "store" and e.recv == obj and e.name == K.PZ:
            pz = e.args[0]
        elif e.kind == "call" and e.recv == q and q is not None:
            if e.name in ("append", "extend"):
                empty = False
            elif e.name == "clear":
                empty = True
        elif e.kind == "delitem" and e.recv == q and e.args[0][0] in ("slice", "slice3"):
            empty = True
        elif e.kind == "call" and e.name == K.dn:
            r.ob("C15.fresh", "first", pz == C(False) and empty, "callbacks called by resume find "
                 + ("the signal still paused" if pz != C(False) else
                    "the collected emissions still queued: what they emit is lost or repeated"),
                 e.node, e.func)
            return


def relay(r, K):
    c = r.p.find_class("SignalRelay")
    if c is None:
        r.note("no relay")
        return
    names = relay_handlers(c)
    for h in names:
        f = r.p.method(c, h)
        if f is None:
            continue
        for x in r.run(f, c, opaque=K.op):
            pz = truth_of(x, ("attr", SELF, K.PZ))
            d = delivered(x, K.dn)
            q = [e for e in calls(x.events, "append") if place(e.recv) == K.R.argsq_t]
            if not d and not q:
                continue
            r.ob("C15.collect", "relay", (pz is True and len(q) == 1 and not d) or (
                pz is False and not q and len(d) == 1), "a paused group relay "
                "delivers an emission, or an unpaused one keeps it", (d + q)[0].node, (d + q)[0].func)
            if q and d == []:
                v = q[0].args[0]
                r.ob("C15.collect", "relay:form", v[0] == "tuple" and len(v[1]) == 1,
                     f"a paused relay keeps {show(v)}", q[0].node, q[0].func)


def relay_handlers(c):
    out = []
    for f in c.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == \
                    "connect" and n.args and isinstance(n.args[0], ast.Attribute):
                if n.args[0].attr not in out:
                    out.append(n.args[0].attr)
    return out


def checks(r, K):
    """A paused signal still refuses what a requested check refuses."""
    c = r.p.find_class("SignalInstance")
    f = r.p.method(c, "emit")
    for x in r.run(f, c, opaque=K.op):
        q = [e for e in calls(x.events, "append") if place(e.recv) == K.R.argsq_t]
        if not q:
            continue
        if x.kind == "raise":
            r.fail("C15.check", "refused", "a refused emission is collected", q[0].node, q[0].func)
            continue
        for flag in ("check_nargs", "check_types"):
            t = truth_of(x, P_(flag))
            r.ob("C15.check", flag, t is not None, f"emissions of a paused signal are collected "
                 f"without looking at {flag}", q[0].node, q[0].func)


@prop("C16", 12)
def c16(r):
    r.rule("C16.blocked", "blocked() blocks, and restores what it found, however it is left")
    r.rule("C16.paused", "paused() pauses; on leaving it resumes with its reducer, unless the signal "
                         "was paused before")
    r.rule("C16.group", "blocked() on a group blocks every member except the excluded ones and "
                        "restores each member")
    r.rule("C16.nested", "only leaving the outermost scope unblocks or resumes")
    K = Roles(r)
    TRY = "    try:\n        with %s:\n            mid = sig.%%F\n            body()\n" \
          "    except BaseException:\n        pass\n    return mid, sig.%%F\n"
    H = "def client(was, body, a, cb, red, init):\n    sig = SignalInstance((int,), name='x')\n" \
        "    sig.%S = [cb]\n"
    n = 0
    for fld, ctx, rule in (("%B", "sig.blocked()", "C16.blocked"), ("%P", "sig.paused()", "C16.paused")):
        text = H + "    sig.%F = was\n" + TRY % ctx
        for x in run(r, K, "scope" + fld, text.replace("%F", fld).replace("%%", "%")):
            if x.kind != "ret":
                continue
            n += 1
            mid, end = x.val[1]
            loc = exits(r, ctx)
            exc = any((e.extra or {}).get("raised") for e in calls(x.events))
            r.ob(rule, "inside", mid == C(True), f"inside {ctx} the flag is {show(mid)}", *loc)
            r.ob(rule, "after" + ("-exception" if exc else ""), same(x, end, P_("was")),
                 f"after {ctx} {'left by an exception ' if exc else ''}the flag is {show(end)} when it "
                 f"was {truth_of(x, P_('was'))} before", *loc)
    r.need(n, "the scoped forms could not be followed")
    # nested scopes
    for fld, ctx, rule in (("%B", "sig.blocked()", "blocked"), ("%P", "sig.paused()", "paused")):
        text = (H + f"    with {ctx}:\n        with {ctx}:\n            pass\n        mid = sig.{fld}\n"
                f"        sig.emit(a)\n        n = len(calls())\n    return mid, sig.{fld}\n").replace(
                    "        n = len(calls())\n", "")
        for x in run(r, K, "nest" + fld, text):
            if x.kind != "ret":
                continue
            mid, end = x.val[1]
            d = delivered(x, K.dn)
            loc = exits(r, ctx)
            r.ob("C16.nested", rule, mid == C(True) and end == C(False), f"leaving an inner {ctx} ends "
                 "the outer one", *loc)
            r.ob("C16.nested", rule + ":emit", len(d) == (0 if rule == "blocked" else 1),
                 f"an emission after an inner {ctx} is delivered {len(d)} times", *loc)
    # reducer and initial value are those given
    text = H + ("    sig.%P = was\n    with sig.paused(red, init):\n        sig.emit(a)\n"
                "    return sig.%Q, sig.%P\n")
    for x in run(r, K, "preduce", text):
        if x.kind != "ret":
            continue
        loc = exits(r, "sig.paused()")
        d = delivered(x, K.dn)
        if truth_of(x, P_("was")):
            r.ob("C16.paused", "kept", not d and elts(x, x.val[1][0]) == [tupof("a")],
                 "leaving paused() resumes a signal that was paused before", *loc)
            continue
        isnone = None
        for a, p, _ in x.facts:
            if a[1] == "is" and place(a[2]) == P_("red") and a[3] == NONE:
                isnone = p
        if isnone:
            r.ob("C16.paused", "resume", [e.args[0] for e in d] == [tupof("a")], "leaving paused() "
                 "does not deliver what was collected", *loc)
        elif d:
            v = place(d[0].args[0])
            ok = len(d) == 1 and P_("red") in walk(v)
            init_null = [p for a, p, _ in x.facts if a[1] == "is" and any(
                place(t) == P_("init") for t in a[2:4])]
            if not (init_null and init_null[0]) and v[0] == "call" and v[1][0] == "ext":
                ok = ok and P_("init") in walk(v)
            r.ob("C16.paused", "reduced", ok, f"leaving paused(reducer, initial) emits {show(v)}", *loc)
        else:
            r.fail("C16.paused", "resume", "leaving paused() delivers nothing", *loc)
    group(r, K)


def exits(r, ctx):
    m = ctx.split(".")[1].split("(")[0]
    f = r.p.method(r.p.find_class("SignalInstance"), m)
    return (f.node, f) if f else (None, None)


def group(r, K):
    H = ("def client(wa, wb, body):\n    a = SignalInstance((int,), name='a')\n"
         "    b = SignalInstance((int,), name='b')\n    a.%B = wa\n    b.%B = wb\n"
         "    rel = SignalRelay({'a': a, 'b': b})\n")
    loc = exits_rel(r)
    if loc is None:
        return
    T = "    try:\n        with rel.blocked(%s):\n            mid = (a.%%B, b.%%B, rel.%%B)\n" \
        "            body()\n    except BaseException:\n        pass\n" \
        "    return mid, (a.%%B, b.%%B, rel.%%B)\n"
    for key, ex in (("all", ""), ("name", "exclude=('b',)"), ("signal", "exclude=[b]")):
        for x in run(r, K, "group-" + key, H + (T % ex).replace("%%", "%")):
            if x.kind != "ret":
                continue
            (a, b, g), (a2, b2, g2) = x.val[1][0][1], x.val[1][1][1]
            if confused(x):
                continue
            okb = b == C(True) if key == "all" else same(x, b, P_("wb"))
            r.ob("C16.group", key + ":inside", a == C(True) and okb and g == C(True),
                 f"inside blocked({ex}) the members are {show(a)}, {show(b)} and the relay {show(g)}", *loc)
            r.ob("C16.group", key + ":after", same(x, a2, P_("wa")) and same(x, b2, P_("wb"))
                 and g2 == C(False),
                 f"after blocked({ex}) a member is {show(a2)} / {show(b2)} although it was "
                 f"{truth_of(x, P_('wa'))} / {truth_of(x, P_('wb'))}", *loc)
    again(r, K, loc)
    for key, body in (
            ("twice", "    rel.block()\n    rel.block()\n    mid = (a.%B, b.%B)\n    rel.unblock()\n"),
            ("nested", "    with rel.blocked():\n        with rel.blocked():\n            pass\n"
                       "        mid = (a.%B, b.%B)\n"),
            ("again", "    rel.block()\n    rel.unblock()\n    rel.block()\n    mid = (a.%B, b.%B)\n"
                      "    rel.unblock()\n")):
        for x in run(r, K, "group-" + key, H + body + "    return mid, (a.%B, b.%B)\n"):
            if x.kind != "ret":
                continue
            (a, b), (a2, b2) = x.val[1][0][1], x.val[1][1][1]
            r.ob("C16.group", key, a == C(True) and b == C(True) and same(x, a2, P_("wa")) and same(
                x, b2, P_("wb")), f"after blocking a group {key} and unblocking it a member is "
                f"{show(a2)} although it was {truth_of(x, P_('wa'))}", *loc)


def again(r, K, loc):
    text = ("def client(wa, w2, wb):\n    a = SignalInstance((int,), name='a')\n"
            "    a.%B = wa\n    rel = SignalRelay({'a': a})\n    rel.block()\n    rel.unblock()\n"
            "    a.%B = w2\n    rel.block()\n    rel.unblock()\n    return a.%B\n")
    for x in run(r, K, "group-fresh", text):
        if x.kind == "ret":
            r.ob("C16.group", "fresh", same(x, x.val, P_("w2")), "a second block of a group restores "
                 f"{show(x.val)}, the state found by the first", *loc)


def confused(x):
    """A path on which two distinct constructed objects, or a name and an object, are equal."""
    for a, p, _ in x.facts:
        if a[1] in ("is", "==") and p:
            l, m = a[2], a[3]
            if l != m and all(t[0] in ("new", "obj") or is_const(t) for t in (l, m)):
                return True
    return False


def exits_rel(r):
    c = r.p.find_class("SignalRelay")
    if c is None:
        r.note("no relay")
        return None
    f = r.p.method(c, "unblock")
    return f.node, f
