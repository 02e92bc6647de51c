"""C06-C09, C11: the list of connected callbacks."""

from __future__ import annotations

import ast
import itertools

from ..conds import split
from ..q import SELF, calls, deep, fact, place, top, truth_of
from ..roles import signal_roles
from ..slots import ADD, DROP, holds, instance_classes, mutations, public
from ..terms import C, NONE, is_const, show, walk
from . import prop
from .emission import delivering, emissions, facts, slot_calls

OPQ = {"weak_callback", "emit", "_run_emit_loop"}
OPC = {"WeakSetattr", "WeakSetitem", "QueuedCallback"}
REG = ("connect", "connect_setattr", "connect_setitem")
WC = "psygnal._weak_callback.weak_callback"
SLOT = ("param", "slot")
DECO = ("param", "decorated")   # what the decorator form is applied to


def slot_of(x):
    return x.tag or SLOT



def reg_paths(r):
    """(class, method) -> paths of the registering methods; the decorator form of connect
    is continued by applying what it returned."""
    if not hasattr(r.p, "_regs"):
        R = signal_roles(r)
        out = {}
        for c in instance_classes(r.p, r):
            for m in REG:
                f = r.p.method(c, m)
                ps = r.run(f, c, opaque=OPQ, opaque_classes=OPC)
                res = []
                for x in ps:
                    if x.kind == "ret" and x.val and x.val[0] in ("closure", "bound", "partial"):
                        for y in r.last.apply(x, [DECO]):
                            y.tag = DECO
                            res.append(y)
                    else:
                        res.append(x)
                out[c, m] = (f, res)
        r.p._regs = (R, out)
    return r.p._regs


def wc_call(t):
    """Is t the result of weak_callback(...)?"""
    return isinstance(t, tuple) and t and t[0] == "call" and (
        t[1] == ("fn", WC) or (t[1][0] in ("fn", "bound", "attr") and str(t[1][-1]).endswith(
            "weak_callback")))


def mentions_slot_elem(a, R):
    return any(isinstance(t, tuple) and t and t[0] in ("elem", "item") and place(t)[1] == R.slots_t
               for t in walk(a))


def matched(x, R):
    """Path knows that some connected slot is the one asked for."""
    return any(p and a[1] in ("==", "is", "in") and (
        mentions_slot_elem(a, R) or (a[1] == "in" and place(a[3]) == R.slots_t))
        for a, p, _ in x.facts) or any(asked_index(e, R) for e, _ in deep(x.events))


def asked_index(e, R, found=True):
    """Is this list.index() (or remove()) finding (or not finding) the callback made for the slot?"""
    return e.kind == "call" and e.name in ("index", "remove") and e.recv is not None and place(e.recv) == R.slots_t \
        and len(e.args) == 1 and wc_call(e.args[0]) and found is not bool((e.extra or {}).get("raised"))


def by_what(x, R):
    """What a connected slot was asked for to be found the same: a call of it, if any."""
    for a, p, _ in x.facts:
        if p and a[1] in ("==", "is") and mentions_slot_elem(a, R):
            for t in map(place, a[2:4]):
                if t[0] == "call" and t[1][0] == "attr" and mentions_slot_elem((0, 0, t[1][1]), R) \
                        and t[1][2] not in ("__eq__", "__hash__"):
                    return t[1][2]
    return None


def unlocked_between(x, R, a, b):
    """Is the lock fully released between two positions of the path?"""
    d = 0
    low = None
    for i, e in enumerate(x.events):
        if e.kind in ("acquire", "release") and place(e.recv)[0] == "attr" \
                and place(e.recv)[1] == SELF and place(e.recv)[2] in R.locks:
            d += 1 if e.kind == "acquire" else -1
        if a <= i <= b and (low is None or d < low):
            low = d
    return low is not None and low <= 0


def scan_loops(x, R):
    return [(i, e) for i, e in enumerate(x.events)
            if e.kind == "loop" and e.recv is not None and place(e.recv) == R.slots_t]


@prop("C06", 20)
def c06(r):
    R, regs = reg_paths(r)
    p = r.p
    r.rule("C06.lock", "every public method changes the slot list only while holding the signal's lock")
    r.rule("C06.atomic", "a search of the slot list and the change based on it happen in one "
                         "critical section")
    r.rule("C06.emit", "emission calls the slots while holding the lock, so it never overlaps a "
                       "change made by another thread")
    r.rule("C06.reentrant", "the lock is re-entrant and exists on new and on unpickled signals")
    classes = instance_classes(p, r)
    finalizers = {}
    for c in classes:
        for n, f in public(c, p):
            if n in ("__setstate__", "__getstate__", "emit", "emit_fast", "__call__", "resume"):
                continue
            paths = regs[c, n][1] if (c, n) in regs else r.run(f, c, opaque=OPQ,
                                                               opaque_classes=OPC)
            r.funcs.add(f.qual)
            for x in paths:
                where = f"{c.name}.{n}"
                for e, st, op in mutations(x.events, R):
                    r.ob("C06.lock", where, holds(e, R),
                         f"{where} changes the slot list ({op}) without holding the lock",
                         e.node, e.func)
                idx = {id(e): i for i, e in enumerate(x.events)}
                sl = scan_loops(x, R)
                for e, st, op in mutations(x.events, R):
                    if id(e) not in idx:
                        continue
                    for i, lp in sl:
                        if i < idx[id(e)]:
                            r.ob("C06.atomic", where, not unlocked_between(x, R, i, idx[id(e)]),
                                 f"{where} searches the slot list and releases the lock before "
                                 f"changing it ({op})", e.node, e.func)
                for e, _ in deep(x.events):
                    for k, v in getattr(e, "kw", ()):
                        if k == "finalize" and v[0] == "bound" and v[1] == SELF:
                            finalizers[v[2]] = c
    for qual, c in sorted(finalizers.items()):
        f = p.funcs[qual]
        for x in r.run(f, c):
            for e, st, op in mutations(x.events, R):
                r.ob("C06.lock", "finalizer", holds(e, R),
                     f"{f.name}, which runs when a callback's owner is garbage collected (in "
                     f"whatever thread that happens), changes the slot list without the lock",
                     e.node, e.func)
    _, ems, _ = emissions(r)
    for x in ems["emit"]:
        for lp, st in delivering(x, R):
            r.ob("C06.emit", "emit", holds(lp, R),
                 "callbacks are invoked without holding the lock", lp.node, lp.func)
        for e in slot_calls(x.events, R):
            r.ob("C06.emit", "emit", holds(e, R),
                 "callbacks are invoked without holding the lock", e.node, e.func)
        for e, _ in deep(x.events):
            if e.kind == "call" and e.recv is not None and place(e.recv) == R.emitq_t:
                r.ob("C06.emit", "emit:queue", holds(e, R),
                     "the emission queue is touched without holding the lock", e.node, e.func)
    r.need(R.locks, "anchor vanished: SignalInstance has no lock field")
    for m, what in (("__init__", "a new signal"), ("__setstate__", "an unpickled signal")):
        f = p.method(R.cls, m)
        n = 0
        for x in r.run(f, R.cls):
            if x.kind != "ret":
                continue
            for l in R.locks:
                n += 1
                v = x.st.heap.get((SELF, l))
                r.ob("C06.reentrant", f"{m}:{l}", v is not None and any(
                    t[0] == "new" and t[1].split(".")[-1] in ("RLock", "_RLock", "Condition")
                    for t in walk(v)),
                     f"{what} has no re-entrant lock in {l}: a callback that emits or connects "
                     "on its own signal would deadlock", f.node, f)
        r.need(n, f"{m}: no path makes the signal ready")
    held = [l for l in R.locks]
    r.note(f"lock fields: {held}")


# ---------------------------------------------------------------------------------- priority


def is_prio(t, new):
    """Priority of the callback being registered."""
    t = place(t)
    if t == ("param", "priority"):
        return True
    if t[0] == "attr" and t[2] == "priority":
        b = t[1]
        return b == place(new) or wc_call(b) or b[0] == "obj"
    return False


def elem_prio(t, R, lid=None):
    t0 = t
    t = place(t)
    if not (t[0] == "attr" and t[2] == "priority"):
        return None
    b = t[1]
    if b[0] == "elem" and b[1] == R.slots_t:
        return ("elem",)
    if b[0] == "item" and b[1] == R.slots_t:
        return ("item", b[2])
    return None


def lower(a, p, new, R):
    """Fact -> (which element, True) when it says element.priority < new.priority, False when
    it says the opposite; None when it is about something else; 'bad' for another comparison
    of the two priorities."""
    if a[1] not in ("<", "==", "is"):
        return None
    (u, i), (v, j) = split(a[2]), split(a[3])
    eu, ev = elem_prio(u, R), elem_prio(v, R)
    if eu and is_prio(v, new):
        if a[1] == "<" and i == j:
            return eu, p
        return eu, "bad"
    if ev and is_prio(u, new):
        # new < elem
        if a[1] == "<" and i == j:
            return ev, (False if p else "bad")
        if a[1] == "<" and j - i == 0:
            return ev, (False if p else "bad")
        return ev, "bad"
    return None


def verdicts(fs, new, R, only_elem=True):
    out = set()
    for a, p, _ in fs:
        w = lower(a, p, new, R)
        if w and (not only_elem or w[0] == ("elem",)):
            out.add(w[1])
    return out


def add_term(e, op):
    if op == "insert":
        return e.args[0], e.args[1]
    if op in ("append", "put"):
        return None, e.args[0]
    if op == "appendleft":
        return C(0), e.args[0]
    return "?", None


def given(r, R):
    """The priority of what the connect methods put into the slot list."""
    head = ("from psygnal._signal import SignalInstance\nclass O:\n    a = 1\n    def __setitem__(self, k, v):"
            "\n        pass\ndef client(cb, p, t, nargs):\n    sig = SignalInstance((int,))\n    o = O()\n")
    for what, call in (("connect", "sig.connect(cb, priority=p, thread=t, check_nargs=False)"),
                       ("@connect", "sig.connect(priority=p, thread=t, check_nargs=False)(cb)"),
                       ("connect_setattr", "sig.connect_setattr(o, 'a', priority=p)"),
                       ("connect_setitem", "sig.connect_setitem(o, 'a', priority=p)")):
        f = r.p.method(R.cls, what.strip("@"))
        n = 0
        for x in r.client(("C07.given", what), head + f"    {call}\n    return sig.{R.slots}[0].priority\n"):
            if x.kind != "ret" or any(p and a[1] == "is" and a[3] == NONE and place(a[2]) == ("param", "cb")
                                      or p and a[1] == "isinstance" and "WeakCallback" in show(a)
                                      for a, p, _ in x.facts):
                continue  # (nothing is connected, or a callback that has a priority already)
            v = place(x.val)
            if v != ("param", "p") and v[0] == "attr" and v[1][0] == "item":
                continue  # not followed to the end
            if v[0] == "attr" and v[1][0] == "call":  # made by a call that was not followed
                if not show(v[1][1]).endswith("weak_callback"):
                    continue
                v = dict(v[1][3]).get("priority", v)
            n += 1
            r.ob("C07.given", what, v == ("param", "p"), f"a callback connected with a priority has "
                 f"{show(v)} instead when {facts(x)}", f.node, f)
        if not n:
            r.note(f"{what}: priority not followed")


@prop("C07", 12)
def c07(r):
    R, regs = reg_paths(r)
    r.rule("C07.insert", "a callback is inserted in front of the first one with a lower priority: "
                         "every earlier one is known not to be lower")
    r.rule("C07.append", "a callback goes to the end only when no connected callback is known to "
                         "be lower, or priorities were never used and its own is 0")
    r.rule("C07.flag", "using a priority is remembered")
    r.rule("C07.keep", "nothing else reorders the slot list")
    r.rule("C07.history", "after any short history of registrations, removals and clearings, followed "
                          "through the source, the callbacks are in order")
    r.rule("C07.given", "the callback connected has the priority given, also when it is to run in a "
                        "thread")
    given(r, R)
    histories(r, R, regs)
    for (c, m), (f, paths) in regs.items():
        flags = set()
        for x in paths:
            for e, st, op in mutations(x.events, R):
                where = f"{c.name}.{m}"
                if op in DROP or op in ("setitem", "delitem", "store", "sort", "reverse"):
                    if op in ("sort", "store", "setitem"):
                        r.note(f"{where}: slot list changed by {op}; order not decided here")
                    elif op == "reverse":
                        r.fail("C07.keep", where, "the slot list is reversed", e.node, e.func)
                    continue
                at, new = add_term(e, op)
                if new is None:
                    r.note(f"{where}: {op} not decided")
                    continue
                if st:
                    r.note(f"{where}: registration inside a loop")
                    continue
                judge(r, R, x, e, at, new, where, flags)
        for x in paths:
            # remember that priorities are in use
            for fl in flags:
                pr = [p for a, p, _ in x.facts if a[1] in ("truth", "truthv") and is_prio(a[2], None)]
                adds = [e for e, st, op in mutations(x.events, R) if op in ADD]
                if pr and pr[-1] and adds:
                    v = [e.args[0] for e, _ in deep(x.events)
                         if e.kind == "store" and e.recv == SELF and e.name == fl]
                    v = v[-1] if v else None
                    known = truth_of(x, ("attr", SELF, fl))
                    r.ob("C07.flag", f"{c.name}.{m}", known is True or (
                        v is not None and is_const(v) and bool(v[2])),
                        f"a callback with a priority is added but {fl} is not set: later ones are "
                        "appended without looking at priorities", adds[0].node, adds[0].func)


def history_texts(depth):
    """Histories of adding (priority), removing (index) and clearing, ending with an addition."""
    out = [((), ())]
    for n in range(depth):
        for h, model in [y for y in out if len(y[0]) == n]:
            removed = sum(isinstance(t, str) for t in h)
            for t in (-1, 0, 1, "-0", "-1", "clear"):
                if isinstance(t, str) and (removed or not model or t == "-1" and len(model) < 2):
                    continue
                m = list(model)
                if t == "clear":
                    m = []
                elif isinstance(t, str):
                    m.pop(int(t[1]))
                else:
                    at = next((i for i, (p, _) in enumerate(m) if p < t), len(m))
                    m.insert(at, (t, n))
                out.append(((*h, t), tuple(m)))
    return [y for y in out if y[0] and not isinstance(y[0][-1], str)]


def histories(r, R, regs):
    c = r.p.find_class("SignalInstance")
    adders = [n for n, g in c.methods.items() if len(g.node.args.args) == 2
              and not g.node.args.kwonlyargs and any(
                  isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute)
                  and y.func.attr in ADD and isinstance(y.func.value, ast.Attribute)
                  and y.func.value.attr == R.slots for y in ast.walk(g.node))]
    rem = r.p.method(r.p.find_class("SignalInstance"), "_remove_slot")
    if not adders or rem is None:
        r.note("histories not followed")
        return
    f = r.p.method(r.p.find_class("SignalInstance"), adders[0])
    head = ("from psygnal import SignalInstance\nclass Slot:\n    def __init__(self, p):\n"
            "        self.priority = p\ndef client():\n"
            "    sig = SignalInstance((int,), name='x')\n")
    exact = 0
    for h, model in history_texts(6 if r.tier == "thorough" else 5):
        text = head
        for i, t in enumerate(h):
            if t == "clear":
                text += "    sig.disconnect()\n"
            elif isinstance(t, str):
                text += f"    sig._remove_slot({t[1]})\n"
            else:
                text += f"    s{i} = Slot({t})\n    sig.{adders[0]}(s{i})\n"
        text += f"    return sig.{R.slots}, (" + "".join(f"s{i}, " for _, i in model) + ")\n"
        for x in r.client(("C07", h), text):
            if x.kind != "ret" or x.val[0] != "tuple":
                continue
            el = x.st.heap.get((x.val[1][0], "$elts"))
            if el is None or not all(e[0] == "item" for e in el):
                continue
            exact += 1
            said = " ".join("clear" if t == "clear" else f"remove[{t[1]}]" if isinstance(t, str)
                            else f"add({t:+d})" for t in h)
            if not r.ob("C07.history", "kept" if len(el) != len(model) else "order",
                        [v for _, v in el] == list(x.val[1][1][1]),
                        f"after {said} the callbacks are out of order or lost", f.node, f):
                return
    if not exact:
        r.note("histories not decided exactly")


def judge(r, R, x, e, at, new, where, flags):
    pos = next((i for i, y in enumerate(x.events) if y is e), len(x.events))
    scans = [lp for i, lp in scan_loops(x, R) if i < pos and not any(
        a[1] in ("==", "is") and mentions_slot_elem(a, R) and not elem_prio(a[2], R)
        and not elem_prio(a[3], R) for b in lp.extra["bodies"] for a, _, _ in b.facts)]
    fs = x.facts
    if at is not None and at != "?" and is_len(at, R):
        at = None
    if at is None:
        # at the end
        if scans:
            lp = scans[-1]
            if not lp.extra.get("partial"):
                for b in lp.extra["bodies"]:
                    v = verdicts(b.facts, new, R)
                    if not v:
                        continue
                    r.ob("C07.append", where, v == {False},
                         f"a callback is put at the end although a connected one is lower "
                         f"({facts(b)})", e.node, e.func)
                if any(verdicts(b.facts, new, R) for b in lp.extra["bodies"]):
                    return
        empty = any((a[1] in ("truth", "truthv") and place(a[2]) == R.slots_t and not p) or (
            a[1] == "==" and place(a[2]) == ("op", "len", R.slots_t) and a[3] == C(0) and p)
            for a, p, _ in fs)
        last = any(w and w[0] == ("item", C(-1)) and w[1] is False
                   for w in (lower(a, p, new, R) for a, p, _ in fs))
        zero = any(is_prio(a[2], new) and ((a[1] in ("truth", "truthv") and not p) or (
            a[1] == "==" and p and a[3] == C(0))) for a, p, _ in fs if len(a) > 2)
        un = [place(a[2])[2] for a, p, _ in fs if a[1] in ("truth", "truthv") and not p
              and place(a[2])[0] == "attr" and place(a[2])[1] == SELF
              and place(a[2])[2] not in (R.slots, R.blocked, R.paused)
              and place(a[2])[2] in priority_flags(r)]
        if zero and un:
            flags.update(un)
        r.ob("C07.append", where, empty or last or (zero and un),
             f"a callback is put at the end without comparing priorities when {facts(x, 20)}",
             e.node, e.func)
        return
    if at == "?":
        return
    b, off = split(at)
    if b[0] == "idx" and place(b)[1] == R.slots_t and off:
        r.fail("C07.insert", where, f"a callback is inserted at {show(at)}, not in front of the "
               "one found", e.node, e.func)
        return
    if at[0] == "idx" and place(at)[1] == R.slots_t and scans:
        lp = scans[-1]
        v = verdicts(fs, new, R)
        if not v and not any(verdicts(b.facts, new, R) for b in lp.extra["bodies"]):
            r.note(f"{where}: insertion position not derived from a priority comparison")
            r.ob("C07.insert", where, False, "a callback is inserted at a position that does not "
                 "depend on priorities", e.node, e.func)
            return
        ok = v == {True}
        r.ob("C07.insert", where, ok, "a callback is inserted in front of one that is not known "
             "to have a lower priority", e.node, e.func)
        for b in lp.extra["bodies"]:
            w = verdicts(b.facts, new, R)
            r.ob("C07.insert", where + ":before", w == {False},
                 f"a callback may be inserted behind one with a lower priority ({facts(b)})",
                 e.node, e.func)
        return
    if is_const(at) and at[2] == 0:
        ok = any(w and w[0] == ("item", C(0)) and w[1] is True
                 for w in (lower(a, p, new, R) for a, p, _ in fs))
        r.ob("C07.insert", where, ok, "a callback is put in front of all others without comparing "
             "priorities", e.node, e.func)
        return
    if is_const(at):
        r.fail("C07.insert", where, f"a callback is inserted at the fixed position {show(at)}",
               e.node, e.func)
        return
    r.note(f"{where}: position {show(at)} not decided")


def priority_flags(r):
    """Fields of the signal set to True somewhere a priority is involved (and reset nowhere
    but in the constructor)."""
    if not hasattr(r.p, "_pflags"):
        R, regs = reg_paths(r)
        s = set()
        for (c, m), (f, paths) in regs.items():
            for x in paths:
                for e, _ in deep(x.events):
                    if e.kind == "store" and e.recv == SELF and e.args and e.args[0] == C(True):
                        s.add(e.name)
        # a flag that is tested but never set counts as well, so that forgetting to set it shows
        ini = r.p.method(R.cls, "__init__")
        for x in r.run(ini, R.cls, opaque={"weak_callback"}):
            for e, _ in deep(x.events):
                if e.kind == "store" and e.recv == SELF and e.args and e.args[0] == C(False) \
                        and e.name not in (R.blocked, R.paused):
                    s.add(e.name)
        r.p._pflags = s
    return r.p._pflags


def is_len(t, R):
    t = place(t)
    return t[0] == "op" and t[1] == "len" and t[2] == R.slots_t


# ---------------------------------------------------------------------------------- options


def effective(x, flag, field):
    """Truth of an option that falls back to a field of the signal when it is None."""
    pm = ("param", flag)
    none = fact(x, lambda a: a[1] == "is" and place(a[2]) == pm and a[3] == NONE)
    if none:
        for a, p, _ in x.facts:
            if a[1] in ("truth", "truthv") and place(a[2])[0] == "attr" \
                    and place(a[2])[1] == SELF and flag in place(a[2])[2]:
                return p
        return None
    return truth_of(x, pm)


def adds_of(x, R):
    return [(e, st, op) for e, st, op in mutations(x.events, R)
            if op in ADD or op in ("setitem", "store")]


def alloc_of(x, t):
    for e, _ in deep(x.events):
        if e.kind == "alloc" and e.res == t:
            return e
    return None


def wc_event(x, t):
    for e, _ in deep(x.events):
        if e.kind == "call" and e.res == t:
            return e
    return None


def param_or(v, name):
    return v == ("param", name)


def texts(r):
    """An object whose text cannot be taken (yet) can be bound to a callback."""
    from ..textsafe import Text
    t = Text(r.p)
    base = r.p.find_class("WeakCallback")
    fs = [m for c in (base, *r.p.subclasses(base)) if (m := c.methods.get("__init__")) is not None]
    for f in (*fs, r.p.find_func("weak_callback")):
        a = f.node.args
        ps = {k.arg for k in (*a.args, *a.kwonlyargs, *filter(None, (a.vararg,)))} & {"args", "kwargs"}
        if ps:
            t.function(f, ps)
            r.ob("C08.text", f.qual, True)
            r.funcs.add(f.qual)
    for g, n, what in t.hits:
        r.ob("C08.text", f"{g.qual}:{what}", False, f"the text of {what} is taken while a callback is connected; when "
             "that fails, the callback cannot be connected", n, g)


@prop("C08", 20)
def c08(r):
    R, regs = reg_paths(r)
    r.rule("C08.once", "a successful connect registers exactly one callback, built from the slot given")
    r.rule("C08.options", "max_args, priority, on_ref_error, thread reach the registered callback unchanged")
    r.rule("C08.unique", "unique=True does not connect a connected slot again, unique='raise' "
                         "refuses it, otherwise duplicates are allowed")
    r.rule("C08.returns", "connect returns the slot it was given")
    r.rule("C08.group", "connecting to a whole group forwards every option")
    r.rule("C08.reuse", "the decorator form can be used for several callbacks, each with its own options")
    r.rule("C08.text", "connecting takes the texts of bound arguments only where a failure is caught")
    reuse(r, R)
    texts(r)
    for (c, m), (f, paths) in regs.items():
        where = f"{c.name}.{m}"
        for x in paths:
            adds = adds_of(x, R)
            if x.kind != "ret":
                continue
            if m == "connect":
                same = matched(x, R)
                uq = truth_of(x, ("param", "unique"))
                if not adds:
                    r.ob("C08.unique" if same else "C08.once", where, same and uq is not False,
                         f"connect returns without connecting when {facts(x, 9)}", f.node, f)
                    if same:
                        ra = [p for a, p, _ in x.facts if a[1] in ("==", "is")
                              and place(a[2]) == ("param", "unique") and a[3] == C("raise")]
                        r.ob("C08.unique", where + ":raise", ra and ra[0] is False,
                             "unique='raise' does not raise", f.node, f)
                else:
                    r.ob("C08.unique", where + ":dup", uq is False or (
                        bool(scan_matching(x, R)) and not same),
                        f"unique is requested but the slot is connected without looking for it "
                        f"when {facts(x, 9)}", adds[0][0].node, adds[0][0].func)
                r.ob("C08.returns", where, x.val == slot_of(x), f"connect returns {show(x.val)}",
                     f.node, f)
            r.ob("C08.once", where + ":count", len(adds) <= 1 and not any(st for _, st, _ in adds),
                 "one connect registers several callbacks", f.node, f)
            for e, st, op in adds:
                _, new = add_term(e, op)
                if new is None:
                    r.note(f"{where}: {op} not decided")
                    continue
                if m == "connect":
                    connect_options(r, R, x, e, new, where)
                else:
                    setter_options(r, R, x, e, new, where, m)
                    r.ob("C08.returns", where, x.val == new, f"{m} returns {show(x.val)}",
                         f.node, f)
            if m != "connect":
                r.ob("C08.once", where, adds, f"{m} returns without connecting when "
                     f"{facts(x, 9)}", f.node, f)
        r.ob("C08.once", where + ":any", any(adds_of(x, R) for x in paths),
             f"{m} never registers anything", f.node, f)
        if m == "connect":
            for x in paths:
                if x.kind == "raise" and x.val[0] == "exc" and matched(x, R) and not adds_of(x, R):
                    ra = [p for a, p, _ in x.facts if a[1] in ("==", "is")
                          and place(a[2]) == ("param", "unique") and a[3] == C("raise")]
                    if ra:
                        r.ob("C08.unique", where + ":raise-only", ra[0],
                             "a duplicate is refused though unique is not 'raise'", f.node, f)
    group_forwarding(r)


def reuse(r, R):
    f = r.p.method(r.p.find_class("SignalInstance"), "connect")
    one, two, ma, er = (("param", n) for n in ("one", "two", "max_args", "on_ref_error"))
    n = 0
    for x in r.client(("C08", "reuse"), "from psygnal import SignalInstance\n"
                      "def client(one, two, max_args, on_ref_error):\n"
                      "    sig = SignalInstance((int, int), name='x')\n"
                      "    deco = sig.connect(max_args=max_args, on_ref_error=on_ref_error)\n"
                      "    deco(one)\n    deco(two)\n", opaque=OPQ | {
                          "_check_nargs", "_append_slot", "_slot_index", "signature",
                          "_parameter_types_match"}):
        if x.kind != "ret":
            continue
        made = [e for e in calls(x.events, "weak_callback")]
        for e in made:
            if not e.args or e.args[0] not in (one, two):
                continue
            n += 1
            me, other = (one, two) if e.args[0] == one else (two, one)
            for k, v in e.kw:
                ok = other not in walk(v)
                if k == "on_ref_error" and is_const(v):
                    ok = any(p and me in walk(a) for a, p, _ in x.facts)
                r.ob("C08.reuse", k, ok, f"a decorator used twice gives the second callback {k} of the "
                     f"first: {show(v)}", e.node, e.func)
    if not n:
        r.note("reuse of the decorator form not decided")


def scan_matching(x, R):
    return [lp for _, lp in scan_loops(x, R) if any(
        a[1] in ("==", "is", "in") and mentions_slot_elem(a, R)
        for b in lp.extra["bodies"] for a, _, _ in b.facts)] or [
        1 for a, p, _ in x.facts if a[1] == "in" and place(a[3]) == R.slots_t] or [
        1 for e, _ in deep(x.events) if asked_index(e, R, False)]


def connect_options(r, R, x, e, new, where):
    th = fact(x, lambda a: a[1] == "is" and place(a[2]) == ("param", "thread") and a[3] == NONE)
    if th is None:
        t = truth_of(x, ("param", "thread"))
        th = None if t is None else not t
    inner = new
    if new[0] == "obj":
        al = alloc_of(x, new)
        q = al is not None and al.name.endswith("QueuedCallback") or "QueuedCallback" in new[2]
        r.ob("C08.options", where + ":thread", q and th is not True,
             f"what is registered is {show(new)} when {facts(x, 12)}", e.node, e.func)
        if al is not None and q:
            inner = al.arg(0, "wrapped")
            r.ob("C08.options", where + ":thread", al.arg(1, "thread") == ("param", "thread"),
                 "the thread option is not the one given", al.node, al.func)
    else:
        r.ob("C08.options", where + ":thread", th is True,
             "a thread is requested but the callback is registered to run anywhere",
             e.node, e.func)
    if not (inner and wc_call(inner)):
        r.fail("C08.once", where + ":what", f"what is registered is {show(inner) if inner else '?'}, "
               "not a callback made from the slot", e.node, e.func)
        return
    w = wc_event(x, inner)
    if w is None:
        return
    r.ob("C08.once", where + ":slot", w.args and w.args[0] == slot_of(x) and len(w.args) == 1,
         f"the callback is made from {', '.join(map(show, w.args))}", w.node, w.func)
    kw = dict(w.kw)
    given = fact(x, lambda a: a[1] == "is" and place(a[2]) == ("param", "max_args")
                 and a[3] == NONE)
    v = kw.get("max_args", NONE)
    if not given:
        r.ob("C08.options", where + ":max_args", v == ("param", "max_args"),
             f"max_args={show(v)} instead of the value given", w.node, w.func)
    else:
        rng = v[0] == "item" and v[2] == C(1) and "_acceptable_posarg_range" in show(v)
        okc = v in (("param", "max_args"), NONE)
        did = [y for y in calls(x.events, "_acceptable_posarg_range")
               if not (y.extra or {}).get("raised")]
        if did:
            r.ob("C08.options", where + ":max_args", rng,
                 f"max_args={show(v)} instead of what the slot's signature accepts",
                 w.node, w.func)
        else:
            r.ob("C08.options", where + ":max_args", okc or rng,
                 f"max_args={show(v)} instead of the value given", w.node, w.func)
    r.ob("C08.options", where + ":priority", kw.get("priority") == ("param", "priority"),
         f"priority={show(kw.get('priority', NONE))}", w.node, w.func)
    v = kw.get("on_ref_error")
    if v == C("ignore"):
        qt = any(p and a[1] in ("isinstance", "truth", "truthv") and "_get_signature_possibly_qt"
                 in show(a) for a, p, _ in x.facts)
        r.ob("C08.options", where + ":on_ref_error", qt,
             "on_ref_error is overridden although the slot is no Qt slot", w.node, w.func)
    else:
        r.ob("C08.options", where + ":on_ref_error", v == ("param", "on_ref_error"),
             f"on_ref_error={show(v) if v else 'not given'}", w.node, w.func)


def setter_options(r, R, x, e, new, where, m):
    al = alloc_of(x, new)
    if al is None:
        r.fail("C08.once", where + ":what", f"what is registered is {show(new)}", e.node, e.func)
        return
    kind = "WeakSetattr" if m == "connect_setattr" else "WeakSetitem"
    key = "attr" if m == "connect_setattr" else "key"
    r.ob("C08.once", where + ":kind", new[2].endswith(kind), f"{m} registers a {show(new)}",
         al.node, al.func)
    r.ob("C08.once", where + ":slot", al.arg(0, "obj") == ("param", "obj")
         and al.arg(1, key) == ("param", key),
         f"the callback targets {', '.join(map(show, al.args))}", al.node, al.func)
    null = fact(x, lambda a: a[1] in ("is", "==") and ("param", "maxargs") in a[2:] and NONE not in a[2:])
    v = al.arg(2, "max_args", NONE)
    r.ob("C08.options", where + ":max_args", v == (NONE if null else ("param", "maxargs")),
         f"max_args={show(v)} instead of the value given", al.node, al.func)
    r.ob("C08.options", where + ":priority", al.arg(5, "priority") == ("param", "priority"),
         f"priority={show(al.arg(5, 'priority', NONE))}", al.node, al.func)
    r.ob("C08.options", where + ":on_ref_error",
         al.arg(4, "on_ref_error") == ("param", "on_ref_error"),
         f"on_ref_error={show(al.arg(4, 'on_ref_error', NONE))}", al.node, al.func)


def group_forwarding(r):
    g = r.p.find_class("SignalGroup")
    for m in ("connect", "connect_direct"):
        f = r.p.method(g, m)
        names = [a.arg for a in f.node.args.args[1:] + f.node.args.kwonlyargs]
        for x in r.run(f, g, opaque={"connect", "connect_direct"} - {f.qual} | {"_append_slot"}):
            cs = [e for e in calls(x.events, m) if e.recv is not None and e.recv != SELF]
            if x.kind != "ret":
                continue
            r.ob("C08.group", m, len(cs) == 1, f"group.{m} connects {len(cs)} times", f.node, f)
            for e in cs:
                kw = dict(e.kw)
                given = {**kw}
                tgt = r.p.method(r.p.find_class("SignalRelay"), m)
                tn = [a.arg for a in tgt.node.args.args[1:]]
                for i, a in enumerate(e.args):
                    if i < len(tn):
                        given[tn[i]] = a
                for n in names:
                    want = ("param", n)
                    v = given.get(n)
                    if n == "slot":
                        isnone = fact(x, lambda a: a[1] == "is" and place(a[2]) == want)
                        if v is None and isnone:
                            continue
                        if v == NONE and isnone:
                            continue
                    r.ob("C08.group", f"{m}:{n}", v == want,
                         f"group.{m} passes {n}={show(v) if v else 'nothing'}", e.node, e.func)


# ---------------------------------------------------------------------------------- refusal


@prop("C09", 12)
def c09(r):
    R, regs = reg_paths(r)
    r.rule("C09.clean", "a connect that raises leaves the signal exactly as it was")
    r.rule("C09.callable", "only callables are connected")
    r.rule("C09.nargs", "with argument checking on, a slot that needs more positional arguments "
                        "than the signal provides is refused")
    r.rule("C09.types", "with type checking on, a slot whose annotations do not match is refused")
    r.rule("C09.off", "a check switched off for a connection refuses nothing, whatever the default "
                      "of the signal is")
    r.rule("C09.range", "the number of arguments a signature accepts: required and optional "
                        "positionals are counted, *args means unlimited, required keyword-only "
                        "parameters are refused")
    r.rule("C09.target", "connect_setattr and connect_setitem refuse targets lacking the "
                         "attribute or item assignment")
    for (c, m), (f, paths) in regs.items():
        where = f"{c.name}.{m}"
        for x in paths:
            if m == "connect":
                switched_off(r, x, f)
            if x.kind == "raise":
                mut = [e for e, _, _ in mutations(x.events, R)]
                sto = [e for e, _ in deep(x.events) if e.kind == "store" and e.recv == SELF]
                r.ob("C09.clean", where, not mut and not sto,
                     f"{m} raises after it already changed the signal ({(mut or sto or [0])[0]!r})",
                     (mut or sto or [f])[0].node, f)
                continue
            if not adds_of(x, R):
                continue
            if m == "connect":
                cal = fact(x, lambda a: a[1] == "callable" and place(a[2]) == slot_of(x))
                r.ob("C09.callable", where, cal is True, "a slot is connected without checking "
                     "that it is callable", f.node, f)
                cn = effective(x, "check_nargs", None)
                given = fact(x, lambda a: a[1] == "is" and place(a[2]) == ("param", "max_args")
                             and a[3] == NONE)
                if cn is not False and given is not False:
                    rng = [e for e in calls(x.events, "_acceptable_posarg_range")]
                    nosig = any((e.extra or {}).get("raised") for e in calls(
                        x.events, "_get_signature_possibly_qt")) or any(
                        e.kind == "except" for e, _ in deep(x.events))
                    r.ob("C09.nargs", where + ":checked", rng or nosig,
                         f"argument checking is on but the slot's signature is not looked at when "
                         f"{facts(x, 9)}", f.node, f)
                    if rng and not nosig:
                        ok = any(over_fact(a) and not p for a, p, _ in x.facts)
                        r.ob("C09.nargs", where, ok,
                             f"a slot that needs too many arguments is connected when "
                             f"{facts(x, 14)}", f.node, f)
                ct = effective(x, "check_types", None)
                if ct is not False:
                    tm = [p for a, p, _ in x.facts if a[1] in ("truth", "truthv")
                          and "_parameter_types_match" in show(a)]
                    r.ob("C09.types", where, tm and tm[0] is True,
                         f"type checking is on but a mismatch is ignored when {facts(x, 14)}",
                         f.node, f)
            else:
                has = [p for a, p, _ in x.facts if a[1] == "hasattr"
                       and place(a[2]) == ("param", "obj") and a[3] == (
                           ("param", "attr") if m == "connect_setattr" else C("__setitem__"))]
                r.ob("C09.target", where, has and has[0] is True,
                     f"{m} accepts a target without checking it", f.node, f)
    posarg_range(r)
    type_match(r)


def switched_off(r, x, f):
    for flag, name, bad in (
            ("check_nargs", "nargs", lambda a, p: over_fact(a) and p),
            ("check_types", "types", lambda a, p: a[1] in ("truth", "truthv") and not p
             and "_parameter_types_match" in show(a))):
        if effective(x, flag, None) is False:
            hit = x.kind == "raise" and any(bad(a, p) for a, p, _ in x.facts)
            r.ob("C09.off", name, not hit, f"a slot is refused by {flag} although it is "
                 f"switched off when {facts(x, 12)}", x.events[-1].node if hit else f.node, f)


def over_fact(a):
    """len(signal parameters) < required arguments of the slot"""
    if a[1] != "<":
        return False
    (u, i), (v, j) = split(a[2]), split(a[3])
    s, t = show(u), show(v)
    return i == j and u[0] == "op" and u[1] == "len" and "parameters" in s and v[0] == "item" \
        and v[2] == C(0) and "_acceptable_posarg_range" in t


SIGS = """from inspect import Parameter
from psygnal._signal import _acceptable_posarg_range
class P:
    def __init__(self, kind, default):
        self.kind = kind
        self.default = default
class D:
    pass
class S:
    def __init__(self, ps):
        self.parameters = ps
"""


def posarg_range(r):
    """The counting function on every signature of up to four parameters (kinds in legal order)."""
    f = r.p.find_func("_acceptable_posarg_range")
    slots = [("PO", "POSITIONAL_ONLY", False), ("PK", "POSITIONAL_OR_KEYWORD", False),
             ("PO=", "POSITIONAL_ONLY", True), ("PK=", "POSITIONAL_OR_KEYWORD", True),
             ("*A", "VAR_POSITIONAL", False), ("KO", "KEYWORD_ONLY", False),
             ("KO=", "KEYWORD_ONLY", True), ("**K", "VAR_KEYWORD", False)]
    n = 0
    for size in range(5):
        for combo in itertools.combinations_with_replacement(slots, size):
            names = [c[0] for c in combo]
            if names.count("*A") > 1 or names.count("**K") > 1 or "PO=" in names and "PK" in names:
                continue
            lo = sum(c[0] in ("PO", "PK") for c in combo)
            hi = None if "*A" in names else sum(c[0][:2] in ("PO", "PK") for c in combo)
            ps = ", ".join(f"'p{i}': P(Parameter.{k}, {'D()' if d else 'E'})"
                           for i, (_, k, d) in enumerate(combo))
            what = ",".join(names) or "none"
            for forbid in (True, False) if "KO" in names else (True,):
                text = (SIGS + f"def client():\n    E = Parameter.empty\n    return _acceptable_posarg_range(S("
                        f"{{{ps}}}){'' if forbid else ', False'})\n")
                for x in r.client(("C09", what, forbid), text, noise=False):
                    if "KO" in names and forbid:
                        n += 1
                        r.ob("C09.range", f"{what}:refused", x.kind == "raise", "a required keyword-only "
                             "parameter is accepted", f.node, f)
                        continue
                    if x.kind == "raise":
                        n += 1
                        r.fail("C09.range", f"{what}:accepted", f"a signature of {what} is refused", f.node, f)
                    if x.kind != "ret" or x.val[0] != "tuple" or not all(map(is_const, x.val[1])):
                        continue
                    n += 1
                    got = tuple(c[2] for c in x.val[1])
                    r.ob("C09.range", what, got == (lo, hi), f"a signature of {what} is said to accept "
                         f"{got} positional arguments instead of {(lo, hi)}", f.node, f)
    if not n:
        r.note("the counting of positional parameters has a shape this rule does not decide")


TYPES = SIGS.replace("_acceptable_posarg_range", "_parameter_types_match") + """class T:
    kind = Parameter.POSITIONAL_OR_KEYWORD
    default = Parameter.empty
    def __init__(self, name, annotation):
        self.name = name
        self.annotation = annotation
class Z(S):
    empty = Parameter.empty
"""


def type_match(r):
    """The comparison of annotations, on parameter lists with every mix of known types, and with
    annotations it can only look up."""
    f = r.p.find_func("_parameter_types_match")
    py = {"int": int, "bool": bool, "str": str, "object": object}
    n = 0

    def sig(annos):
        return "Z({" + ", ".join(f"'p{i}': T('p{i}', {t})" for i, t in enumerate(annos)) + "})"

    def look(key, spec, annos):
        text = (TYPES + f"def client(func, anno):\n    E = Parameter.empty\n"
                        f"    return _parameter_types_match(func, {sig(spec)}, {sig(annos)})\n")
        return [x for x in r.client(("C09t", key), text, noise=False) if not any(
            p and a[1] in ("is", "==") and "empty" in show(a) for a, p, _ in x.facts)]

    rows = [((s,), (a,)) for s in ("int", "str", "object") for a in ("E", *py)]
    rows += [((s, "int"), (a, b)) for s in ("int", "str") for a in ("E", "int", "str")
             for b in ("E", "bool", "str")]
    rows += [(("int", "int"), ("int",)), (("int",), ("int", "str")), (("int",), ()), ((), ("int",)),
             (("int", "int", "int"), ("int", "E", "str"))]
    for spec, annos in rows:
        ok = all(a == "E" or issubclass(py[a], py[t]) for a, t in zip(annos, spec))
        what = f"({', '.join(annos).replace('E', 'unannotated')}) for a signal of ({', '.join(spec)})"
        for x in look((spec, annos), spec, annos):
            if x.kind == "raise":
                r.ob("C09.types", what, not ok, f"a slot taking {what} raises", f.node, f)
            elif x.kind == "ret" and is_const(x.val):
                n += 1
                r.ob("C09.types", what, x.val == C(ok), f"a slot taking {what} is "
                     f"{'accepted' if x.val == C(True) else 'refused'}", f.node, f)
    if not n:
        r.note("type matching has a shape this rule does not decide")
        return
    hints = "get_type_hints(func)"
    for key, anno, words in (("string", "'int'", (hints,)), ("looked up", "anno", (hints, "anno"))):
        for spec, annos in ((("int",), (anno,)), (("str", "int"), ("E", anno))):
            yes = no = 0
            for x in look((key, annos), spec, annos):
                if x.kind != "ret" or not is_const(x.val):
                    continue
                seen = [p for a, p, _ in x.facts if a[1] == "issubclass" and any(
                    w in show(a) for w in words)]
                each = [p for e, _ in deep(x.events) if e.kind == "loop" for b in e.extra["bodies"]
                        for a, p, _ in b.facts if a[1] == "issubclass" and any(w in show(a) for w in words)]
                yes, no = yes + (x.val == C(True)), no + (x.val == C(False))
                if x.val == C(True):
                    r.ob("C09.types", key, any(seen), "a slot is accepted although "
                         + ("only each member of a union is compared, not any of them matches"
                            if each else "its annotation is not compared") + f" when {facts(x)}",
                         f.node, f)
                else:
                    r.ob("C09.types", key, not any(seen), "a slot is refused although its annotation "
                         f"matches, when {facts(x)}", f.node, f)
            r.ob("C09.types", key + ":refused", no, f"no slot with a {key} annotation is refused",
                 f.node, f)
            r.ob("C09.types", key + ":accepted", yes, f"no slot with a {key} annotation is accepted",
                 f.node, f)


# ---------------------------------------------------------------------------------- disconnect


@prop("C11", 10)
def c11(r):
    R, regs = reg_paths(r)
    p = r.p
    r.rule("C11.all", "disconnect() without a slot removes every callback")
    r.rule("C11.one", "disconnect(slot) removes exactly one connection: one that was compared "
                      "equal to the slot")
    r.rule("C11.missing", "disconnecting an unknown slot changes nothing and raises only when "
                          "missing_ok is False")
    r.rule("C11.setter", "disconnect_setattr / disconnect_setitem remove what the matching "
                         "connect call registered")
    r.rule("C11.key", "two callbacks are the same connection when their keys are equal, and the "
                      "key names the target")
    r.rule("C11.contains", "`slot in signal` tells whether disconnect would find it")
    for c in instance_classes(p, r):
        f = p.method(c, "disconnect")
        where = f"{c.name}.disconnect"
        relay = c.name == "SignalRelay"
        removed = False
        for x in r.run(f, c, opaque=OPQ | {"_disconnect_relay"}):
            muts = list(mutations(x.events, R))
            none = fact(x, lambda a: a[1] == "is" and place(a[2]) == SLOT and a[3] == NONE)
            if none:
                ok = x.kind == "ret" and len(muts) >= 1 and all(
                    op in ("clear",) or (op == "store" and e.args[0][0] == "list")
                    or (op == "delitem" and full_slice(e.args[0])) for e, _, op in muts)
                r.ob("C11.all", where, ok, f"disconnect() {'does ' + muts[0][2] if muts else 'does nothing'}"
                     f" to the slot list", f.node, f)
                continue
            same = matched(x, R)
            how = by_what(x, R)
            r.ob("C11.key", where + ":compared", not how, "a connection is found by comparing what "
                 f"{how}() of it gives", f.node, f)
            if same:
                if x.kind == "ret":
                    removed = True
                ok = len(muts) == 1 and not muts[0][1] and one_item(x, muts[0], R)
                r.ob("C11.one", where, x.kind == "ret" and ok,
                     f"disconnecting a connected slot {'raises' if x.kind == 'raise' else 'does'} "
                     f"{[m[2] + str([show(a) for a in m[0].args]) for m in muts]}",
                     muts[0][0].node if muts else f.node, f)
            else:
                mo = truth_of(x, ("param", "missing_ok"))
                r.ob("C11.missing", where, not muts, "disconnecting an unknown slot changes the "
                     "slot list", f.node, f)
                if x.kind == "raise":
                    r.ob("C11.missing", where + ":raise", mo is not True and is_exc(x, "ValueError"),
                         "disconnecting an unknown slot raises although missing_ok", f.node, f)
                else:
                    r.ob("C11.missing", where + ":quiet", mo is True or relay,
                         f"disconnecting an unknown slot is not reported when {facts(x)}",
                         f.node, f)
        r.ob("C11.one", where + ":any", removed, "disconnect(slot) never removes anything",
             f.node, f)
        f = p.method(c, "__contains__")
        for x in r.run(f, c, opaque=OPQ):
            if x.kind != "ret":
                continue
            v = value_truth(x)
            if v is None and any(t[0] == "idx" for t in walk(x.val)):
                r.fail("C11.contains", c.name, f"`in` depends on where the slot is ({show(x.val)})",
                       f.node, f)
                continue
            if v is None:
                r.note("__contains__ has a shape this rule does not decide")
                continue
            r.ob("C11.contains", c.name, v == matched(x, R),
                 f"`in` gives {v} when {facts(x)}", f.node, f)
        for m, kind, key in (("disconnect_setattr", "WeakSetattr", "attr"),
                             ("disconnect_setitem", "WeakSetitem", "key")):
            f = p.method(c, m)
            some = False
            for x in r.run(f, c, opaque=OPQ, opaque_classes=OPC):
                muts = list(mutations(x.events, R))
                al = [e for e, _ in deep(x.events) if e.kind == "alloc" and e.name == kind]
                for e in al:
                    r.ob("C11.setter", f"{c.name}.{m}:target", e.arg(0, "obj") == ("param", "obj")
                         and e.arg(1, key) == ("param", key),
                         f"{m} looks for {', '.join(map(show, e.args))}", e.node, e.func)
                ops = [op for _, _, op in muts]
                if ops:
                    some = True
                    ok = len(ops) == 1 and (
                        (ops[0] == "remove" and any(e.res == muts[0][0].args[0] for e in al))
                        or (ops[0] in ("pop", "delitem") and matched(x, R)))
                    r.ob("C11.setter", f"{c.name}.{m}", ok, f"{m} does {ops} to the slot list",
                         muts[0][0].node, muts[0][0].func)
                if x.kind == "raise" and is_exc(x, "ValueError"):
                    mo = truth_of(x, ("param", "missing_ok"))
                    r.ob("C11.missing", f"{c.name}.{m}", mo is not True,
                         f"{m} raises although missing_ok", f.node, f)
                if x.kind == "ret" and not ops:
                    caught = any(e.kind == "except" for e, _ in deep(x.events))
                    mo = truth_of(x, ("param", "missing_ok"))
                    r.ob("C11.missing", f"{c.name}.{m}:quiet", mo is True,
                         f"{m} does not report a missing connection when {facts(x)}", f.node, f)
            r.ob("C11.setter", f"{c.name}.{m}:any", some, f"{m} never removes anything", f.node, f)
    keys(r)


def value_truth(x):
    from ..conds import normalise
    from ..absint import natural_number
    v = x.val
    if is_const(v):
        return bool(v[2])
    a, p = normalise(v)
    if isinstance(a, bool):
        return a if p else not a
    d = x.st.facts.decide(a)
    if d is None and a[1] == "<":
        if natural_number(a[2]) and is_const(a[3]) and a[3][2] <= 0:
            d = False
        elif natural_number(a[3]) and is_const(a[2]) and a[2][2] < 0:
            d = True
    if d is None and a[1] == "==":
        for u, w in ((a[2], a[3]), (a[3], a[2])):
            if natural_number(u) and is_const(w) and w[2] < 0:
                d = False
    return None if d is None else (d if p else not d)


def full_slice(t):
    return t[0] == "slice" or (t[0] == "op" and t[1] == "slice") or "slice" in str(t[0])


def one_item(x, mut, R):
    e, st, op = mut
    if op == "pop":
        return len(e.args) == 1 and index_of(x, e.args[0], R)
    if op == "delitem":
        return index_of(x, e.args[0], R)
    if op == "remove":
        t = e.args[0]
        return wc_call(t) or (t[0] == "elem" and place(t)[1] == R.slots_t)
    return False


def index_of(x, t, R):
    """Is t the index of a callback found in the slot list?"""
    return t[0] == "idx" and place(t)[1] == R.slots_t or any(
        e.res == t and e.name == "index" and asked_index(e, R) for e, _ in deep(x.events))


def is_exc(x, name):
    v = x.val
    return v and v[0] == "exc" and v[1] and v[1][1].endswith(name)


def keys(r):
    """How callbacks compare."""
    p = r.p
    c = p.find_class("WeakCallback")
    f = p.method(c, "__eq__")
    for x in r.run(f, c, noise=False):
        if x.kind != "ret":
            continue
        isw = fact(x, lambda a: a[1] == "isinstance" and place(a[2]) == ("param", "other"))
        if isw:
            v = place(x.val)
            ok = v[0] == "op" and v[1] == "==" and {v[2], v[3]} == {
                ("attr", SELF, "_key"), ("attr", ("param", "other"), "_key")}
            if v[0] == "const":
                kf = fact(x, lambda a: a[1] == "==" and {place(a[2]), place(a[3])} == {
                    ("attr", SELF, "_key"), ("attr", ("param", "other"), "_key")})
                ok = kf is v[2]
            r.ob("C11.key", "__eq__", ok, f"callbacks compare by {show(x.val)}", f.node, f)
        else:
            r.ob("C11.key", "__eq__:other", x.val[0] in ("ext", "glob") or x.val == C(False),
                 f"a callback compared to something else gives {show(x.val)}", f.node, f)
    f = p.method(c, "object_key")
    ident = owner = True
    for x in r.run(f, c, noise=False):
        if x.kind != "ret":
            continue
        bound = fact(x, lambda a: a[1] == "hasattr" and a[3] == C("__self__"))
        ts = list(walk(x.val))
        ids = [t for t in ts if t[0] == "call" and t[1] == ("ext", "builtins.id")
               or t[0] == "op" and t[1] == "id"]
        want = ("attr", ("param", "obj"), "__self__") if bound else ("param", "obj")
        r.ob("C11.key", f"object_key:{'method' if bound else 'other'}", any(
            place(a) == want for t in ids for a in (t[2] if t[0] == "call" else t[2:])),
             "the key of a callback does not identify the object it belongs to", f.node, f)
        if bound:
            r.ob("C11.key", "object_key:name", any(
                t[0] in ("attr",) and t[2] == "__name__" and place(t)[1] == ("param", "obj")
                for t in ts) or fact(x, lambda a: a[1] == "hasattr" and a[3] == C("__name__")
                                     and a[2] == ("param", "obj")) is False
                or any(t == C("__name__") for t in ts)
                or any(a[1] in ("truth", "truthv") and not pp and place(a[2])[2:] == ("__name__",)
                       for a, pp, _ in x.facts),
                "two methods of one object have the same key", f.node, f)
            fn = ("attr", ("param", "obj"), "__func__")
            r.ob("C11.key", "object_key:function", any(
                place(a)[:3] == fn or a[0] == "call" and a[2][:2] == (("param", "obj"), C("__func__"))
                for t in ids for a in (t[2] if t[0] == "call" else t[2:]))
                or any(a[1] == "hasattr" and a[3] == C("__func__") and not pp
                       or a[1] == "is" and pp and NONE in a[2:4] and any("__func__" in show(b) for b in a[2:4])
                       or a[1] == "isinstance" and not pp and place(a[2]) == ("param", "obj")
                       for a, pp, _ in x.facts),
                "two methods of one object that have the same name, such as lambdas or methods made by one decorator, "
                "count as the same callback", f.node, f)
    for cn, key in (("WeakSetattr", "attr"), ("WeakSetitem", "key")):
        c2 = p.find_class(cn)
        f = p.method(c2, "__init__")
        for x in r.run(f, c2):
            if x.kind != "ret":
                continue
            k = x.st.heap.get((SELF, "_key"))
            ts = list(walk(k)) if k else []
            r.ob("C11.key", cn, ("param", key) in ts and any(
                t[0] == "call" and "object_key" in show(t[1]) for t in ts),
                 f"the key of a {cn} does not tell {key}s of one object apart", f.node, f)
            if key == "key":
                r.ob("C11.key", cn + ":repr", not k or not as_text(k, ("param", key)),
                     f"the key of a {cn} does not tell keys apart that print alike, such as 1 and '1'",
                     f.node, f)


def as_text(k, v):
    """Does v go into the string k through str() or plain formatting only?"""
    strict = loose = False

    def go(t):
        nonlocal strict, loose
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == "call" and t[1][0] == "ext" and t[1][1].split(".")[-1] in ("repr", "ascii", "id", "hash"):
            strict = strict or v in walk(t)
            return
        if t[0] == "op" and t[1] == "fstr" and v in t[2:] or t[0] == "call" and t[1] == (
                "ext", "builtins.str") and v in t[2]:
            loose = True
        for s in t[1:]:
            if isinstance(s, tuple):
                go(s)
    go(k)
    return loose and not strict

