"""C24–C27, C30: evented containers.

Each method is followed in a small client whose storage and signals are recording stand-ins, so
what it does to the data and what it emits is seen in one sequence, for every argument."""

from __future__ import annotations

import ast

from ..absint import show
from ..q import covers, deep
from ..terms import C, NONE, ext, is_const, walk
from . import prop
from .state import P_

STAND = '''
class Sg:
    def __init__(self, name, log):
        self.name, self.log, self.subs = name, log, []
    def emit(self, *a):
        self.log.append((self.name, *a))
    def __call__(self, *a):
        self.emit(*a)
    def __len__(self):
        return 1
    def connect(self, cb, **kw):
        self.log.append(("connect", self.name, cb))
        self.subs.append(cb)
    def disconnect(self, cb, **kw):
        self.log.append(("disconnect", self.name, cb))
    def blocked(self):
        return Within(self, "block", ())
    def paused(self, *a):
        return Within(self, "pause", a)
class Within:
    def __init__(self, s, what, a):
        self.s, self.what, self.a = s, what, a
    def __enter__(self):
        self.s.log.append((self.what, self.s.name, *self.a))
    def __exit__(self, *a):
        self.s.log.append(("end", self.what, self.s.name))
class Store:
    def __init__(self, log, item, n):
        self.log, self.item, self.n = log, item, n
    def __len__(self):
        return self.n
    def __getitem__(self, k):
        return self.item
    def __setitem__(self, k, v):
        self.log.append(("set", k, v))
    def __delitem__(self, k):
        self.log.append(("del", k))
    def __contains__(self, k):
        return k.held
    def __iter__(self):
        return iter(self.item)
    def insert(self, i, v):
        self.log.append(("insert", i, v))
    def append(self, v):
        self.log.append(("insert", self.n, v))
    def pop(self, i=-1, *a):
        self.log.append(("pop", i))
        return self.item
    def reverse(self):
        self.log.append(("reverse",))
    def add(self, v):
        self.log.append(("add", v))
    def discard(self, v):
        self.log.append(("discard", v))
    def remove(self, v):
        self.log.append(("discard", v))
    def clear(self):
        self.log.append(("clear",))
'''


class Plan:
    """How an object of a container class looks, read off its `__init__`: where its data and its
    signals are, and what its other attributes start as."""

    def __init__(self, r, name, modname=None):
        self.r = r
        self.cls = r.p.find_class(name)
        r.need(self.cls, f"{name} is gone")
        self.data, self.plain, self.events = None, {}, "events"
        for c in self.cls.mro:
            if isinstance(c, str):
                continue
            init = next((m for m in r.p.funcs.values() if m.name == "__init__" and
                         getattr(m.cls, "qual", None) == c.qual), None)
            if init is None:
                continue
            dflt = defaults(init.node)
            for s in ast.walk(init.node):
                t = s.target if isinstance(s, ast.AnnAssign) else \
                    s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else None
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)
                        and t.value.id == "self") or s.value is None:
                    continue
                v, a = s.value, t.attr
                if isinstance(v, (ast.List, ast.Dict, ast.Set)) or (
                        isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                        and v.func.id in ("set", "dict", "list") and not v.args):
                    self.data = self.data or a
                elif isinstance(v, ast.Constant):
                    self.plain.setdefault(a, ast.unparse(v))
                elif isinstance(v, ast.Name) and v.id in dflt:
                    self.plain.setdefault(a, dflt[v.id])
                elif isinstance(v, ast.Call) and a not in self.plain and a != self.data:
                    self.calls = {**getattr(self, "calls", {}), a: ast.unparse(v.func)}
        r.need(self.data, f"{name} has no container of its own in which to find its data")

    def signals(self, name):
        """Names of the signals of a group class, its bases included."""
        c = self.r.p.find_class(name)
        self.r.need(c, f"{name} is gone")
        out = []
        for k in c.mro:
            if not isinstance(k, str):
                for s in k.node.body:
                    t = s.target if isinstance(s, ast.AnnAssign) else \
                        s.targets[0] if isinstance(s, ast.Assign) else None
                    v = getattr(s, "value", None)
                    if isinstance(t, ast.Name) and isinstance(v, ast.Call) \
                            and ast.unparse(v.func).split(".")[-1] == "Signal":
                        out.append(t.id)
        return out

    def text(self, args, body, imports, events, extra="", sub="", item="item", n="n", fields=None,
             ret="log", data=None):
        plain = {**self.plain, **(fields or {})}
        ev = "".join(f"        self.{s} = Sg({s!r}, log)\n" for s in self.signals(events))
        lines = [f"def client({args}):", "    log = []", "    o = K.__new__(K)",
                 f"    o.{self.data} = {data or f'Store(log, {item}, {n})'}",
                 f"    o.{self.events} = Ev(log)"]
        lines += [f"    o.{k} = {v}" for k, v in plain.items()]
        return (imports + STAND + f"class Ev:\n    def __init__(self, log):\n{ev}" + extra
                + f"class K({self.cls.name}):\n" + (sub or "    pass\n")
                + "\n".join(lines) + "\n" + "".join(f"    {b}\n" for b in body) + f"    return {ret}\n")


def defaults(fn):
    a = fn.args
    pos = a.posonlyargs + a.args
    d = {p.arg: ast.unparse(v) for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
    d.update({p.arg: ast.unparse(v) for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


def entries(x, t):
    """Contents of a recorded log: ("item", name, args) and ("each", source, [(facts, entries)])."""
    el = x.st.heap.get((t, "$elts"))
    return None if el is None else [entry(e) for e in el]


def entry(e):
    if e[0] == "item" and e[1][0] == "tuple" and e[1][1] and is_const(e[1][1][0]):
        return ("item", e[1][1][0][2], tuple(e[1][1][1:]))
    if e[0] == "each":
        return ("each", e[2], [(cs, [entry(i) for i in tail]) for cs, tail in e[3]])
    return ("other", e, ())


def flat(log):
    """The entries as (name, args), or None when the log has a loop."""
    if log is None or any(e[0] != "item" for e in log):
        return None
    return [(e[1], e[2]) for e in log]


def txt(log):
    return [f"{n}({', '.join(map(show, a))})" for n, a in log]


def lin(t):
    """t as a linear form: ({term: factor}, constant)."""
    if is_const(t) and isinstance(t[2], (int, bool)):
        return {}, int(t[2])
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        (a, c), (b, d) = lin(t[2]), lin(t[3])
        k = 1 if t[1] == "+" else -1
        out = dict(a)
        for u, v in b.items():
            out[u] = out.get(u, 0) + k * v
        return {u: v for u, v in out.items() if v}, c + k * d
    return {t: 1}, 0


def diff(a, b):
    """a - b when it is a constant, else None."""
    (x, c), (y, d) = lin(a), lin(b)
    return c - d if x == y else None


def less(x, a, b, facts=None):
    """Is a < b on this path (integers): True, False, or None when nothing tells?"""
    k = diff(a, b)
    if k is not None:
        return k < 0
    lo, hi = None, None        # bounds of a - b
    for at, p, _ in (facts if facts is not None else x.facts):
        if at[1] not in ("<", "==") or len(at) < 4:
            continue
        for u, v, sign in ((at[2], at[3], 1), (at[3], at[2], -1)):
            # at: u < v (sign 1) or v < u (sign -1)
            (m, c), (q, d) = lin(("op", "-", u, v)), lin(("op", "-", a, b))
            if m != q:
                continue
            off = d - c        # (a - b) = (u - v) + off
            if at[1] == "==":
                if p:
                    return off < 0
                continue
            if sign == 1:
                if p:
                    hi = min(hi, off - 1) if hi is not None else off - 1
                else:
                    lo = max(lo, off) if lo is not None else off
            elif p:
                lo = max(lo, off + 1) if lo is not None else off + 1
            else:
                hi = min(hi, off) if hi is not None else off
            break
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    # disequalities tighten the bounds
    ne = set()
    for at, p, _ in (facts if facts is not None else x.facts):
        if at[1] == "==" and not p:
            for u, v in ((at[2], at[3]), (at[3], at[2])):
                (m, c), (q, d) = lin(("op", "-", u, v)), lin(("op", "-", a, b))
                if m == q:
                    ne.add(d - c)
    while hi is not None and hi in ne:
        hi -= 1
    while lo is not None and lo in ne:
        lo += 1
    return True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None


def isa(x, t, cls):
    for a, p, _ in x.facts:
        if a[1] == "isinstance" and a[2] == t and a[3] == ext("builtins." + cls):
            return p
    return None


LIST = "from psygnal.containers import EventedList\n"
MUT = {"insert", "set", "del", "pop", "reverse", "add", "discard", "clear"}


@prop("C24", 8)
def c24(r):
    r.rule("C24.insert", "inserting(index), the insertion, inserted(index, value)")
    r.rule("C24.set", "the element is replaced, then changed(index, old, new); nothing when it is the same")
    r.rule("C24.delete", "removing(index), the removal, removed(index, value), for each element, the index "
                         "counted from the front")
    r.rule("C24.move", "moving(source, destination), the move, moved(source, new index, value), reordered(); "
                       "nothing when it moves nowhere")
    r.rule("C24.multiple", "moving several emits reordered once, at the end")
    r.rule("C24.reverse", "reversing emits reordered once, afterwards")
    r.rule("C24.refused", "an operation refused emits and changes nothing")
    r.rule("C24.silent", "no method changes the data without an event afterwards")
    r.rule("C24.read", "reading gives what the data gives and changes nothing")
    p = Plan(r, "EventedList")
    n, item, key, val = P_("n"), P_("item"), P_("key"), P_("val")

    def run(name, body, **kw):
        o = {k: kw.pop(k) for k in ("opaque", "recurse") if k in kw}
        return r.client(("C24", name), p.text("n, item, key, val", body, LIST, "ListEvents", **kw),
                        opaque_classes=(), noise=False, **o)

    def seq(x, f, rule, what):
        log = flat(entries(x, x.val if x.kind == "ret" else x.st_log))
        if log is None:
            r.note(f"{what} not decided")
        return log
    f = m = r.p.method(p.cls, "insert")
    r.need(f, "EventedList.insert is gone")
    done = 0
    for x in run("insert", ["o.insert(key, val)"]):
        if x.kind == "ret" and (log := seq(x, f, "", "insertion")) is not None:
            done += 1
            r.ob("C24.insert", "insert", log == [("inserting", (key,)), ("insert", (key, val)),
                                                 ("inserted", (key, val))], f"inserting does {txt(log)}", f.node, f)
    r.need(done, "insertion into an EventedList could not be followed")
    f = r.p.method(p.cls, "__setitem__")
    r.need(f, "EventedList.__setitem__ is gone")
    for x in run("set", ["o[key] = val"]):
        if x.kind != "ret":
            continue
        log = seq(x, f, "", "replacing")
        same = next((q for a, q, _ in x.facts if a[1] == "is" and set(a[2:4]) == {item, val}), None)
        if log is None:
            continue
        r.ob("C24.set", "looked", same is not None or not log, "an element is replaced without looking whether it "
             "is the same", f.node, f)
        if same:
            r.ob("C24.set", "same", not log, f"replacing an element by itself does {txt(log)}", f.node, f)
            continue
        ok = len(log) == 2 and log[0][0] == "set" and log[1][0] == "changed"
        r.ob("C24.set", "order", ok, f"replacing does {txt(log)}", f.node, f)
        if ok:
            new = log[0][1][1]
            r.ob("C24.set", "values", log[0][1][0] == key and log[1][1] == (key, item, new),
                 f"replacing an element announces {txt(log[1:])}", f.node, f)
            if not isa(x, key, "slice"):
                r.ob("C24.set", "stored", new == val, f"replacing stores {show(new)}", f.node, f)
    f = r.p.method(p.cls, "__delitem__")
    r.need(f, "EventedList.__delitem__ is gone")
    for x in run("del", ["try:", "    del o[key]", "except Exception:", "    log.append(('refused',))"]):
        if x.kind != "ret":
            continue
        full = entries(x, x.val)
        log = flat(full)
        if log is not None and ("refused", ()) in log:
            if "exception from user code" in " ".join(show(a[2]) for a, _, _ in x.facts if a[1] == "isinstance"):
                continue
            r.ob("C24.refused", "delete", log == [("refused", ())], f"a refused deletion does {txt(log)}", f.node, f)
            if isa(x, key, "int") and less(x, key, C(0)) and feasible(x):
                r.ob("C24.delete", "negative", less(x, ("op", "+", key, n), C(0)), "an index counting from the end "
                     "is refused without looking whether it reaches an element", f.node, f)
            continue
        if isa(x, key, "int"):
            if log is None:
                r.note("deletion of one element not decided")
                continue
            neg = less(x, key, C(0))
            idx = None if neg is None else ("op", "+", key, n) if neg else key
            ok = len(log) == 3 and [q for q, _ in log] == ["removing", "pop", "removed"]
            r.ob("C24.delete", "order", ok, f"deleting does {txt(log)}", f.node, f)
            if ok and idx is None and log[1][1] == (key,):
                r.ob("C24.delete", "negative", False, "an index is used without looking whether it counts from "
                     "the end", f.node, f)
            if ok and idx is not None:
                r.ob("C24.delete", "index", all(diff(a[0], idx) == 0 for _, a in log) and log[2][1][1] == item,
                     f"deleting does {txt(log)}", f.node, f)
        elif full is not None:
            each = [e for e in full if e[0] == "each"]
            if len(each) != 1 or len(full) != 1:
                r.note("deletion of a slice not decided")
                continue
            down = mono(x, each[0][1])
            if down is None:
                r.note("the order in which the elements of a slice are deleted is not decided")
                down = True
            r.ob("C24.delete", "reversed", down, "the elements of a slice are not deleted from the "
                 "end", f.node, f)
            for _, tail in each[0][2]:
                log = flat(tail)
                if log is None or [q for q, _ in log] == ["removed"] and any(
                        t[0] == "call" for a in log[0][1] for t in walk(a)):
                    r.note("deletion of a slice not decided")
                    continue
                ok = [q for q, _ in log] == ["removing", "pop", "removed"] and \
                    len({a[0] for _, a in log}) == 1 and log[2][1][1] == item
                r.ob("C24.delete", "slice", ok, f"deleting each element of a slice does {txt(log)}", f.node, f)
    slices(r, p, f)
    move(r, p, run)
    f = r.p.method(p.cls, "reverse")
    for x in run("reverse", ["o.reverse()"]):
        if x.kind == "ret" and (log := seq(x, f, "", "reversing")) is not None:
            r.ob("C24.reverse", "reverse", log == [("reverse", ()), ("reordered", ())],
                 f"reversing does {txt(log)}", f.node, f)
    for what, body, want in (("len", "len(o)", n), ("item", "o[0]", item)):
        for x in run("read " + what, [f"res = {body}"], ret="(log, res)"):
            if x.kind == "ret":
                log = flat(entries(x, x.val[1][0]))
                r.ob("C24.read", what, log == [] and x.val[1][1] == want, f"{body} gives {show(x.val[1][1])} and "
                     f"does {txt(log or [])}", p.cls.node, m)
    silent(r, p)


SPAN = 7        # length of the list whose slices are deleted one by one
SLICES = [slice(a, b, c) for c in (None, 1, 2, 3, -1, -2, -3) for a, b in (
    (None, None), (1, 6), (6, 1), (-2, None), (None, -5), (-9, 3), (9, -9), (5, 5))]


def slices(r, p, f):
    """Deleting a slice with known bounds from a list of known length: exactly its elements, from the end."""
    for s in SLICES:
        text = p.text("item, key, val", [f"del o[{s.start}:{s.stop}:{s.step}]"], LIST, "ListEvents")
        head = "def client(item, key, val):"
        text = text.replace(head, f"{head}\n    n = {SPAN}", 1)
        want = [w for i in sorted(range(SPAN)[s], reverse=True) for w in (
            ("removing", (C(i),)), ("pop", (C(i),)), ("removed", (C(i), P_("item"))))]
        for x in r.client(("C24", "slices", str(s)), text, opaque_classes=(), noise=False):
            what = f"deleting [{s.start}:{s.stop}:{s.step}] of a list of {SPAN}"
            if x.kind != "ret":
                r.ob("C24.delete", "slice:raises", x.kind != "raise" or x.val[0] != "exc" or x.val[1] is None,
                     f"{what} raises {show(x.val)}", f.node, f)
                continue
            got = flat(entries(x, x.val))
            if got is None or got != want and not all(is_const(a[0]) for _, a in got):
                r.note("deletion of a slice with known bounds not decided")
                continue
            r.ob("C24.delete", "slice:which", got == want, f"{what} does {txt(got)[:6]}", f.node, f)


def mono(x, src):
    """Is the iteration over a sequence going downwards?  (None: not decided)"""
    d = direction(x, src)
    if d == "raw" or d == "back":
        # the order of the slice itself (or its reverse): right only where the sign of the step is known
        about = any(t[0] == "attr" and t[2] == "step" or t[0] == "call" and t[1][0] == "attr"
                    and t[1][2] == "indices" for a, _, _ in x.facts for t in walk(a))
        return None if about else False
    return None if d is None else d == "down"


def direction(x, src, depth=6):
    flip = {"down": "up", "up": "down", "raw": "back", "back": "raw", None: None}
    if not depth:
        return None
    if src[0] == "call" and src[1][0] == "ext" and src[2]:
        n = src[1][1].split(".")[-1]
        if n == "sorted":
            how = dict(src[3]).get("reverse", C(False))
            return ("down" if how[2] else "up") if is_const(how) else None
        if n == "reversed":
            return flip[direction(x, src[2][0], depth - 1)]
        if n in ("list", "tuple", "iter", "enumerate"):
            return direction(x, src[2][0], depth - 1)
        if n == "range":
            return "raw"
    if src[0] == "slice":
        d = direction(x, src[1], depth - 1)
        return flip[d] if src[4] == C(-1) else d if src[4] in (NONE, C(1)) else None
    d = "none"
    el = x.st.heap.get((src, "$elts"))
    subs = [e[2] if e[0] == "each" else e[1] for e in el or () if e[0] in ("each", "spread")]
    if subs:
        got = {direction(x, t, depth - 1) for t in subs}
        d = got.pop() if len(got) == 1 else None
    for e, _ in deep(x.events):
        if e.kind == "call" and e.recv == src and e.name == "sort":
            how = dict(e.kw or ()).get("reverse", C(False))
            d = ("down" if how[2] else "up") if is_const(how) else None
        elif e.kind == "call" and e.recv == src and e.name == "reverse":
            d = flip.get(d)
    if d != "none":
        return d
    if src[0] in ("list", "new", "unk", "call") and (src, "$elts") not in x.st.heap:
        return None
    return "raw"


def move(r, p, run):
    n, item, src, dst = P_("n"), P_("item"), P_("key"), P_("val")
    f = r.p.method(p.cls, "move")
    r.need(f, "EventedList.move is gone")
    for x in run("move", ["res = o.move(key, val)"], ret="(log, res)"):
        if x.kind != "ret":
            continue
        log, res = flat(entries(x, x.val[1][0])), x.val[1][1]
        if log is None:
            r.note("moving not decided")
            continue
        ns, nd = less(x, src, C(0)), less(x, dst, C(0))
        if ns is None or nd is None:
            r.ob("C24.move", "negative", False, "an index is used without looking whether it counts from the "
                 "end", f.node, f)
            continue
        s = ("op", "+", src, n) if ns else src
        d = ("op", "+", dst, ("op", "+", n, C(1))) if nd else dst
        at = [equals(x, s, d), equals(x, ("op", "+", s, C(1)), d)]
        if True in at:
            r.ob("C24.move", "nowhere", not log and res == C(False), f"moving an element to where it is does "
                 f"{txt(log)} and returns {show(res)}", f.node, f)
            continue
        if not feasible(x):
            continue
        if at != [False, False]:
            r.ob("C24.move", "nowhere", not log, "an element is moved without looking whether it is there already",
                 f.node, f)
            continue
        r.ob("C24.move", "result", res == C(True), f"moving returns {show(res)}", f.node, f)
        ok = [q for q, _ in log] == ["moving", "pop", "insert", "moved", "reordered"]
        r.ob("C24.move", "order", ok, f"moving does {txt(log)}", f.node, f)
        if not ok:
            continue
        r.ob("C24.move", "announced", len(log[0][1]) == 2 and diff(log[0][1][0], s) == 0
             and diff(log[0][1][1], d) == 0, f"moving announces {txt(log[:1])}", f.node, f)
        before = less(x, s, d)
        if before is None:
            r.ob("C24.move", "index", False, "the destination is used without looking whether the element "
                 "comes before it", f.node, f)
            continue
        to = ("op", "-", d, C(1)) if before else d
        r.ob("C24.move", "index", diff(log[1][1][0], s) == 0 and diff(log[2][1][0], to) == 0
             and log[2][1][1] == item, f"moving does {txt(log[1:3])}", f.node, f)
        r.ob("C24.move", "moved", len(log[3][1]) == 3 and diff(log[3][1][0], s) == 0
             and diff(log[3][1][1], to) == 0 and log[3][1][2] == item, f"moving emits {txt(log[3:4])}", f.node, f)
    f = r.p.method(p.cls, "move_multiple")
    if f is None:
        return
    for x in run("multiple", ["res = o.move_multiple(key, val)"], ret="(log, res)"):
        if x.kind != "ret":
            continue
        full = entries(x, x.val[1][0])
        if full is None:
            r.note("moving several not decided")
            continue
        order = [(e[1], *e[2][:1]) if e[0] == "item" else e[0] for e in full]
        r.ob("C24.multiple", "once", order[:1] == [("block", C("reordered"))] and order[-1:] == [("reordered",)]
             and order.count(("reordered",)) == 1 and ("end", C("block")) in order, "moving several does "
             f"{[o if isinstance(o, str) else o[0] for o in order]}", f.node, f)


def feasible(x):
    """Do the comparisons made on this path leave any integers?"""
    for i, (at, p, q) in enumerate(x.facts):
        if at[1] == "<" and len(at) == 4:
            rest = x.facts[:i] + x.facts[i + 1:] if isinstance(x.facts, (list, tuple)) else [
                f for f in x.facts if f != (at, p, q)]
            if less(x, at[2], at[3], rest) not in (None, p):
                return False
    return True


def equals(x, a, b):
    k = diff(a, b)
    if k is not None:
        return k == 0
    for at, p, _ in x.facts:
        if at[1] == "==":
            for u, v in ((at[2], at[3]), (at[3], at[2])):
                (m, c), (q, d) = lin(("op", "-", u, v)), lin(("op", "-", a, b))
                if m == q and c == d:
                    return p
                if m == q and p:
                    return False
    if less(x, a, b) or less(x, b, a):
        return False
    return None


def silent(r, p):
    """Public methods of the class, inherited ones too, changing the data: each path has an event
    after the change."""
    n = 0
    seen = set()
    for c in p.cls.mro:
        for f in [] if isinstance(c, str) else list(r.p.funcs.values()):
            if getattr(f.cls, "qual", None) != c.qual or f.name in seen:
                continue
            seen.add(f.name)
            if f.name in ("__init__", "__new__", "__repr__") or f.name[0] == "_" and f.name[:2] != "__":
                continue
            if isinstance(f.node, ast.AsyncFunctionDef) or "classmethod" in ast.unparse(
                    ast.Tuple(f.node.decorator_list, ast.Load())):
                continue
            for x in r.run(f, p.cls, noise=False, preserve={p.data, p.events}):
                if x.kind != "ret":
                    continue
                last = None
                for e, _ in deep(x.events):
                    if touches(e, p.data):
                        last = e
                    elif e.kind == "call" and last is not None and announces(e, p.events):
                        last = None
                n += 1
                r.ob(r.prop + ".silent", f.name, last is None, f"{f.name} changes the data and emits nothing "
                     "afterwards", last.node if last else f.node, f)
    r.need(n, "no method uses the data of the container")


def touches(e, data):
    recv = e.recv
    if not isinstance(recv, tuple) or recv[0] != "attr" or recv[2] != data:
        return False
    return e.kind in ("setitem", "delitem") or e.kind == "call" and e.name in (
        "insert", "append", "extend", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update")


@prop("C25", 5)
def c25(r):
    r.rule("C25.add", "adding(key), the store, added(key, value) for a key that is new")
    r.rule("C25.change", "changing(key), the store, changed(key, old, new) for a key that is there; nothing when "
                         "the value is the same")
    r.rule("C25.delete", "removing(key), the removal, removed(key, value)")
    r.rule("C25.refused", "a refused value is not stored, nor announced as stored; a missing key emits nothing")
    r.rule("C25.types", "a value is checked against the types given, whichever way it is stored")
    r.rule("C25.copy", "a copy has the same items and type check, and is made without touching the original")
    r.rule("C25.silent", "no method changes the data without an event afterwards")
    p = Plan(r, "EventedDict")
    imp = "from psygnal.containers import EventedDict\n"
    item, key, val = P_("item"), P_("key"), P_("val")

    attr = basetype(r)

    def run(name, body, **kw):
        kw["fields"] = {**({attr: "()"} if attr else {}), **kw.get("fields", {})}
        return r.client(("C25", name), p.text("n, item, key, val, ty", body, imp, "DictEvents", **kw),
                        opaque_classes=(), noise=False)
    f = r.p.method(p.cls, "__setitem__")
    r.need(f, "EventedDict.__setitem__ is gone")
    n = 0
    for x in run("set", ["o[key] = val"]):
        log = flat(entries(x, x.val)) if x.kind == "ret" else None
        if log is None:
            continue
        n += 1
        held = next((q for a, q, _ in x.facts if a[1] in ("truth", "truthv") and a[2][:3] == ("attr", key, "held")),
                    None)
        same = next((q for a, q, _ in x.facts if a[1] == "is" and set(a[2:4]) == {item, val}), None)
        if held is None:
            r.ob("C25.add", "looked", not any(q in ("adding", "added", "changing", "changed") for q, _ in log),
                 "a key is announced as added or changed without looking whether it is there", f.node, f)
        elif not held:
            r.ob("C25.add", "add", log == [("adding", (key,)), ("set", (key, val)), ("added", (key, val))],
                 f"storing at a new key does {txt(log)}", f.node, f)
        elif same is None and "set" in dict(log):
            r.ob("C25.change", "same", False, "a value is replaced without looking whether it is the same", f.node, f)
        elif same:
            r.ob("C25.change", "same", not log, f"storing the value already there does {txt(log)}", f.node, f)
        else:
            r.ob("C25.change", "change", log == [("changing", (key,)), ("set", (key, val)),
                                                 ("changed", (key, item, val))],
                 f"storing at a known key does {txt(log)}", f.node, f)
    r.need(n, "storing into an EventedDict could not be followed")
    f = r.p.method(p.cls, "__delitem__")
    r.need(f, "EventedDict.__delitem__ is gone")
    for x in run("del", ["del o[key]"]):
        log = flat(entries(x, x.val)) if x.kind == "ret" else None
        if log is not None:
            r.ob("C25.delete", "delete", log == [("removing", (key,)), ("del", (key,)), ("removed", (key, item))],
                 f"deleting does {txt(log)}", f.node, f)
    missing = ("class Lacking(Store):\n    def __getitem__(self, k):\n        raise KeyError(k)\n"
               "    def __delitem__(self, k):\n        raise KeyError(k)\n"
               "    def pop(self, k, *a):\n        raise KeyError(k)\n"
               "    def __contains__(self, k):\n        return False\n")
    for x in run("missing", ["try:", "    del o[key]", "    log.append(('done',))", "except KeyError:", "    pass"],
                 extra=missing, data="Lacking(log, item, n)"):
        log = flat(entries(x, x.val)) if x.kind == "ret" else None
        if log is not None and "exception from user code" not in " ".join(show(a[2]) for a, _, _ in x.facts):
            r.ob("C25.refused", "missing", not log, f"deleting a missing key does {txt(log)}", f.node, f)
    typed(r, p, attr, run, val)
    f = r.p.method(p.cls, "copy")
    sub = (f"    def __init__(self, *a, **k):\n        self.{attr or 'z'} = ()\n        self.got = a\n"
           "    def update(self, m):\n        self.got = (m,)\n")
    for x in run("copy", ["c = o.copy()"], sub=sub, fields={attr or "z": "(ty,)"},
                 ret=f"(o, c, c.got, c.{attr or 'z'}, log)") if f else ():
        if x.kind != "ret":
            continue
        o, c, got, ty, log = x.val[1]
        r.ob("C25.copy", "copy", c != o and got == ("tuple", (o,)) and not entries(x, log), "a copy is not a new "
             "dict of the same items", f.node, f)
        r.ob("C25.copy", "types", not attr or ty == ("tuple", (P_("ty"),)), "a copy loses the type check",
             f.node, f)
    silent(r, p)


def basetype(r):
    """The attribute in which the types given are kept."""
    for m in r.p.funcs.values():
        if m.name == "__init__" and m.module.name.endswith("_evented_dict"):
            for t in ast.walk(m.node):
                if isinstance(t, (ast.Assign, ast.AnnAssign)) and t.value is not None \
                        and any(isinstance(k, ast.Name) and k.id == "basetype" for k in ast.walk(t.value)):
                    t = t.target if isinstance(t, ast.AnnAssign) else t.targets[0]
                    if isinstance(t, ast.Attribute):
                        return t.attr
    return None


def either(r, p, attr, run, val, f):
    """A value of either of two types fits."""
    for x in run("typed either", ["try:", "    o[key] = val", "except TypeError:", "    log.append(('refused',))"],
                 fields={attr: "(ty, n)"}):
        log = flat(entries(x, x.val)) if x.kind == "ret" else None
        if log is None or any("exception from user code" in show(a[2]) for a, _, _ in x.facts
                              if a[1] == "isinstance" and isinstance(a[2], tuple)):
            continue
        left = {P_("ty"), P_("n")}
        fits = False
        for a, q, _ in x.facts:
            if a[1] == "isinstance" and a[2] == val:
                kinds = {t for t in left if any(u == t for u in walk(a[3]))}
                fits = fits or q and bool(kinds or a[3] in (P_("ty"), P_("n")))
                left -= kinds
        if fits or left:
            r.ob("C25.types", "either", "refused" not in [q for q, _ in log],
                 "a value of one of the types given is refused", f.node, f)


def typed(r, p, attr, run, val):
    if attr is None:
        r.note("type checks of a dict not decided")
        return
    f = r.p.method(p.cls, "__setitem__")
    n = 0
    for x in run("typed", ["try:", "    o[key] = val", "except TypeError:", "    log.append(('refused',))"],
                 fields={attr: "(ty,)"}):
        log = flat(entries(x, x.val)) if x.kind == "ret" else None
        if log is None or any("exception from user code" in show(a[2]) for a, _, _ in x.facts
                              if a[1] == "isinstance" and isinstance(a[2], tuple)):
            continue
        fits = next((q for a, q, _ in x.facts if a[1] == "isinstance" and a[2] == val and a[3] == P_("ty")), None)
        names = [q for q, _ in log]
        if fits is None:
            r.ob("C25.types", "checked", "set" not in names, "a value is stored without checking its type",
                 f.node, f)
            continue
        n += 1
        if fits:
            r.ob("C25.types", "fits", "refused" not in names, "a value of the type given is refused", f.node, f)
        else:
            r.ob("C25.refused", "type", names[-1:] == ["refused"] and not {"set", "added", "changed"} & set(names),
                 f"storing a value of another type does {txt(log)}", f.node, f)
    either(r, p, attr, run, val, f)
    if not n:
        r.note("type checks of a dict not decided")


def announces(e, events):
    """Is a call the emission of one of the events (by `emit`, or by calling the signal)?"""
    if e.recv is None or events not in show(e.recv):
        return False
    return e.name in ("emit", "__call__", "emit_fast") or e.recv[0] == "attr" and e.recv[2] == events \
        and e.name not in GROUP


GROUP = {"connect", "disconnect", "block", "unblock", "pause", "resume", "blocked", "paused", "connect_direct",
         "all", "is_uniform", "get_signal_by_alias"}


def held(x, t, facts=None):
    """Is t a member of the stand-in's data on this path: True, False, or None."""
    for a, p, _ in (x.facts if facts is None else facts):
        if a[1] in ("truth", "truthv") and isinstance(a[2], tuple) and a[2][:3] == ("attr", t, "held"):
            return p
    return None


def alias(log):
    """Storing in a set or in the keys of a dict, under one name."""
    out = []
    for q, a in log:
        if q == "set" and len(a) == 2 and a[1] == NONE:
            q, a = "add", a[:1]
        elif q in ("pop", "del"):
            q, a = "discard", a[:1]
        out.append((q, a))
    return out


EMPTY = ("tuple", ())
MORE = '''class Keys(Store):
    def clear(self):
        self.log.append(("clear",))
        self.item, self.n = (), 0
'''


@prop("C26", 12)
def c26(r):
    r.rule("C26.add", "an item that is not there is stored, then items_changed((item,), ()); one that is there "
                      "does nothing")
    r.rule("C26.discard", "an item that is there is removed, then items_changed((), (item,)); else nothing")
    r.rule("C26.clear", "all items are removed, then items_changed((), all of them); nothing when there are none")
    r.rule("C26.bulk", "an update emits once for all items it adds or removes, and handles each one once")
    r.rule("C26.which", "each update adds or removes the items its name says")
    r.rule("C26.reduce", "what the items added one by one announced is what is announced together, in order")
    r.rule("C26.snapshot", "nothing loops over the set, or over an argument that may be the set, while changing it")
    r.rule("C26.new", "union, difference, intersection, symmetric_difference and copy give a new set, with the "
                      "right items, and change nothing")
    r.rule("C26.order", "ordered sets keep their items in a dict, and adding an item again does not move it")
    r.rule("C26.silent", "no method changes the data without an event afterwards")
    for name in ("EventedSet", "EventedOrderedSet"):
        p = Plan(r, name)
        one(r, p, name)
        bulk(r, p, name)
        fresh(r, p, name)
        silent(r, p)
    order(r)


def order(r):
    for name in ("OrderedSet", "EventedOrderedSet"):
        c = r.p.find_class(name)
        r.need(c, f"{name} is gone")
        for x in r.client(("C26", "order", name), f"from psygnal.containers._evented_set import {name}\n"
                          f"def client(a):\n    o = {name}((a,))\n    return o.{Plan(r, name).data}\n",
                          opaque={"_get_events_class"}, opaque_classes={"SetEvents"}, noise=False):
            if x.kind == "ret":
                r.ob("C26.order", name, x.val[0] in ("dict", "list"), f"{name} keeps its items in "
                     f"{show(x.val)}, without their order", c.node, r.p.method(c, "__init__"))
    p = Plan(r, "OrderedSet")
    run = runner(r, p, "from psygnal.containers._evented_set import OrderedSet\n", "C26", "SetEvents")
    for op in ("add", "discard"):
        for x in run("order " + op, [f"o.{op}(key)"]):
            log = flat(entries(x, x.val)) if x.kind == "ret" else None
            if log is None or marker(x.facts):
                continue
            log = alias(log)
            r.ob("C26.order", op, log == [(op, (P_("key"),))] or not log and held(x, P_("key")) is (op == "add"),
                 f"{op} of an OrderedSet does {txt(log)}", r.p.method(p.cls, op).node, r.p.method(p.cls, op))


def runner(r, p, imp, pid, events, params="n, item, key, val, oth"):
    def run(name, body, extra="", **kw):
        o = {k: kw.pop(k) for k in ("opaque", "recurse") if k in kw}
        return r.client((pid, p.cls.name, name), p.text(params, body, imp, events, extra=MORE + extra, **kw),
                        opaque_classes=(), noise=False, **o)
    return run


def one(r, p, name):
    key, item = P_("key"), ("tuple", (P_("item"), P_("val")))
    run = runner(r, p, f"from psygnal.containers import {name}\n", "C26", "SetEvents")
    for op, act, sent in (("add", False, ("tuple", (("tuple", (key,)), EMPTY))),
                          ("discard", True, ("tuple", (EMPTY, ("tuple", (key,)))))):
        f = r.p.method(p.cls, op)
        r.need(f, f"{name}.{op} is gone")
        n = 0
        for x in run(op, [f"o.{op}(key)"]):
            log = flat(entries(x, x.val)) if x.kind == "ret" else None
            if log is None:
                continue
            n += 1
            log, h = alias(log), held(x, key)
            if marker(x.facts):
                continue
            if h is None and not any(q == "items_changed" for q, _ in log):
                continue
            want = [(op, (key,)), ("items_changed", sent[1])] if h is act else []
            r.ob("C26." + op, name, log == want and h is not None, f"{op} of an item that is "
                 f"{'' if h else 'not ' if h is False else 'perhaps '}there does {txt(log)}", f.node, f)
        r.need(n, f"{op} of an {name} could not be followed")
    f = r.p.method(p.cls, "clear")
    for what, data, want in (("all", "Keys(log, (item, val), 2)", item), ("empty", "Keys(log, (), 0)", None)):
        for x in run("clear " + what, ["o.clear()"], data=data):
            log = flat(entries(x, x.val)) if x.kind == "ret" else None
            if log is None:
                continue
            log = [e for e in log if e[0] not in ("pause", "end")]
            exp = [("clear", ()), ("items_changed", (EMPTY, want))] if want else []
            r.ob("C26.clear", f"{name} {what}", log == exp, f"clearing does {txt(log)}", f.node, f)


def marker(facts):
    """Is some item, on this path, an object of the package's own that marks "nothing to do"?"""
    return any(p and (a[1] == "isinstance" and a[3][0] == "cls" or a[1] in ("is", "==") and any(
        t[0] == "glob" for t in a[2:4] if isinstance(t, tuple))) for a, p, _ in facts)


def bulk(r, p, name):
    run = runner(r, p, f"from psygnal.containers import {name}\n", "C26", "SetEvents")
    oth = P_("oth")
    for op in ("update", "difference_update", "intersection_update", "symmetric_difference_update"):
        f = r.p.method(p.cls, op)
        r.need(f, f"{name}.{op} is gone")
        n = 0
        for x in run(op, [f"o.{op}(oth)"]):
            if x.kind != "ret":
                continue
            full = entries(x, x.val)
            each = [e for e in full or () if e[0] == "each"]
            if full is None or any(e[0] == "other" for e in full) or len(each) > 1:
                r.note(f"{op} not decided")
                continue
            if not each:
                continue
            n += 1
            order = [e[1] if e[0] == "item" else e[0] for e in full]
            r.ob("C26.bulk", f"{name}.{op}", order == ["pause", "each", "end"], f"{op} does {order}, not one "
                 "emission for all of it", f.node, f)
            src, cases = each[0][1:3]
            for facts, tail in cases:
                if marker(facts):
                    continue
                log = flat(tail)
                el = None if log is None else next((a[0] for q, a in alias(log) if q in ("add", "discard")), None)
                if el is None:
                    continue
                log = alias(log)
                q, h = log[0][0], held(x, el, facts)
                sent = (("tuple", (el,)), EMPTY) if q == "add" else (EMPTY, ("tuple", (el,)))
                r.ob("C26.which", f"{name}.{op}", log == [(q, (el,)), ("items_changed", sent)]
                     and h is (q == "discard"), f"{op} does {txt(log)} for an item that is "
                     f"{'' if h else 'not ' if h is False else 'perhaps '}there", f.node, f)
                ok = {"update": q == "add", "difference_update": q == "discard",
                      "symmetric_difference_update": True}.get(op)
                if ok is None:
                    member = [pol for a, pol, _ in facts if a[1] == "in" and a[2] == el
                              and any(t == oth for t in walk(a[3]))]
                    ok = q == "discard" and member == [False]
                r.ob("C26.which", f"{name}.{op} {q}", ok, f"{op} does {txt(log)}", f.node, f)
            kinds = {alias(flat(t))[0][0] for _, t in cases if flat(t)}
            need = {"update": {"add"}, "symmetric_difference_update": {"add", "discard"}}.get(op, {"discard"})
            r.ob("C26.which", f"{name}.{op} does", kinds == need, f"{op} does {sorted(kinds)}", f.node, f)
            if op[0] == "s":
                r.ob("C26.bulk", f"{name}.{op} once", once(src), f"an item given twice to {op} is handled twice",
                     f.node, f)
        r.need(n, f"{op} of an {name} could not be followed")
        for x in run(op + " self", [f"o.{op}(o)"]):
            live = {e.extra["lid"]: e for e, _ in deep(x.events) if e.kind == "loop" and not e.extra.get("snap")}
            for e in x.st.heap.get((x.val, "$elts"), ()) if x.kind == "ret" else ():
                if e[0] == "each" and any(q in ("discard", "pop", "del") for _, tail in e[3]
                                          for q, _ in flat([entry(i) for i in tail]) or ()):
                    lp = live.get(e[1]) if e[2][0] not in ("list", "dict", "set", "tuple") else None
                    r.ob("C26.snapshot", f"{name}.{op}", lp is None, f"{op} with the set itself changes the set "
                         "while looping over it", lp.node if lp else f.node, f)
        body = [f"o.{op}(oth)", "a, b = log[0], log[0]", "res = a[2]([((key,), ()), ((), (val,)), ((item,), (n,))])"]
        for x in run(op + " reduce", body, ret="res", item="()"):
            if x.kind == "ret" and x.val[0] == "tuple":
                want = ("tuple", (("tuple", (P_("key"), P_("item"))), ("tuple", (P_("val"), P_("n")))))
                r.ob("C26.reduce", f"{name}.{op}", x.val == want, f"items announced together are {show(x.val)}",
                     f.node, f)


def once(src):
    """Does each item come out of this source at most once?"""
    return any(t[0] in ("set", "dict") or t[0] == "call" and (
        t[1] in (ext("builtins.set"), ext("builtins.frozenset"), ext("builtins.dict"))
        or t[1][0] == "bound" and t[1][2].endswith("fromkeys") or "fromkeys" in show(t[1])) for t in walk(src))


def fresh(r, p, name):
    run = runner(r, p, f"from psygnal.containers import {name}\n", "C26", "SetEvents")
    oth, item = P_("oth"), P_("item")
    sub = ("    def __init__(self, it=()):\n        self.got, self.more = it, ()\n"
           "    def update(self, *s):\n        self.more = s\n")
    for op in ("copy", "union", "difference", "intersection", "symmetric_difference"):
        f = r.p.method(p.cls, op)
        r.need(f, f"{name}.{op} is gone")
        arg = "" if op == "copy" else "oth"
        n = 0
        for x in run("new " + op, [f"c = o.{op}({arg})"], sub=sub, ret="(o, c, c.got, c.more, log)"):
            if x.kind != "ret" or x.val[0] != "tuple":
                continue
            n += 1
            o, c, got, more, log = x.val[1]
            r.ob("C26.new", f"{name}.{op}", c != o and c[0] == "obj" and not entries(x, log),
                 f"{op} does not give a new set, or changes this one: {txt(flat(entries(x, log)) or [])}", f.node, f)
            if op in ("copy", "union"):
                r.ob("C26.new", f"{name}.{op} items", any(t in (o, item) for t in walk(got))
                     and (op == "copy" or more == ("tuple", (oth,)) or any(t == oth for t in walk(more))
                          or any(t == oth for t in walk(got))),
                     f"{op} has the items of {show(got)} and {show(more)}", f.node, f)
                continue
            parts = members(x, got)
            if not parts or any(e[0] not in ("each", "spread") for e in parts):
                r.note(f"the items of {op} are not decided")
                continue
            seen = set()
            for e in parts:
                if e[0] == "spread":
                    r.note(f"the items of {op} are not decided")
                    continue
                src = side(e[2], item, oth)
                for facts, tail in e[3]:
                    if not tail:
                        continue
                    el = tail[0][1]
                    inn, hld = contains(facts, el, oth), held(x, el, facts)
                    if src == "self":
                        keep = {"difference": inn is False, "intersection": inn is True}.get(op, inn is False)
                    elif src == "other":
                        keep = {"intersection": hld is True}.get(op, op[0] == "s" and hld is False)
                    else:
                        r.note(f"the items of {op} are not decided")
                        continue
                    seen.add(src)
                    r.ob("C26.new", f"{name}.{op} items", keep and [t[1] for t in tail] == [el],
                         f"{op} has an item it should not have", f.node, f)
            if seen:
                r.ob("C26.new", f"{name}.{op} sides", op[0] != "s" or len(seen) == 2, f"{op} has only the items of "
                     f"{seen}", f.node, f)
        r.need(n, f"{op} of an {name} could not be followed")


def members(x, t):
    """What a local collection, or a chain of them, was filled with; None when that is not known."""
    if t[0] == "call" and show(t[1]).endswith("chain"):
        out = [members(x, a) for a in t[2]]
        return None if None in out else [e for k in out for e in k]
    if t[0] == "call" and len(t[2]) == 1 and show(t[1]).split(".")[-1] in ("tuple", "list", "iter", "fromkeys"):
        return members(x, t[2][0])
    el = x.st.heap.get((t, "$elts"))
    if el is None:
        return None
    out = []
    for e in el:
        sub = members(x, e[1]) if e[0] == "spread" else [e]
        if sub is None:
            return None
        out += sub
    return out


def side(src, item, oth):
    a, b = (any(t == k for t in walk(src)) for k in (item, oth))
    return "self" if a and not b else "other" if b and not a else None


def contains(facts, el, oth):
    """Is el in a collection made from the argument."""
    for a, p, _ in facts:
        if a[1] == "in" and a[2] == el and any(t == oth for t in walk(a[3])):
            return p
    return None


SELECT = '''class Chg(Store):
    def change(self):
        self.item, self.n = self.after
    def __setitem__(self, k, v):
        self.log.append(("set", k, v))
        self.change()
    def add(self, v):
        self.log.append(("add", v))
        self.change()
    def pop(self, k, *a):
        self.log.append(("pop", k))
        self.change()
    def discard(self, v):
        self.log.append(("discard", v))
        self.change()
    def clear(self):
        self.log.append(("clear",))
        self.item, self.n = (), 0
class Par:
    def __init__(self, size):
        self.size = size
    def __len__(self):
        return self.size
    def __contains__(self, k):
        return k.inn
'''


def truth_fact(facts, t, attr):
    for a, p, _ in facts:
        if a[1] in ("truth", "truthv") and isinstance(a[2], tuple) and a[2][:3] == ("attr", t, attr):
            return p
    return None


def same(x, a, b):
    """Are two terms the same value on this path: True, False, None."""
    if a == b:
        return True
    if is_const(a) and is_const(b):
        return False
    for at, p, _ in x.facts:
        if at[1] in ("==", "is") and set(at[2:4]) == {a, b}:
            return p
    return None


def backing(r, cls, prop_name):
    """The attribute a property reads."""
    m = r.p.method(cls, prop_name)
    for f in r.p.funcs.values() if m is None else [m]:
        if f.name == prop_name and getattr(f.cls, "qual", None) == cls.qual:
            for s in ast.walk(f.node):
                if isinstance(s, ast.Return) and isinstance(s.value, ast.Attribute) \
                        and ast.unparse(s.value.value) == "self":
                    return s.value.attr
    return None


@prop("C27", 12)
def c27(r):
    r.rule("C27.active", "after every change the active item is the selected one when exactly one is selected, "
                         "else none; events.active tells each new active item")
    r.rule("C27.current", "an item made active becomes current; clearing makes none current, unless told to keep it")
    r.rule("C27.set", "making an item active selects it and nothing else; None clears; the active item again "
                      "does nothing")
    r.rule("C27.parent", "an item that is not in the parent is refused, and nothing changes")
    r.rule("C27.toggle", "toggle adds what is not selected and removes what is")
    r.rule("C27.assign", "assigning a selection unselects the rest and selects the new items, from any iterable")
    r.rule("C27.leave", "an item leaving the list by removal or replacement is unselected")
    r.rule("C27.insert", "an inserted item becomes active, unless that is switched off")
    r.rule("C27.next", "select_next moves by step, wrapped around or kept within the list, from any state")
    r.rule("C27.remove", "remove_selected removes each selected item, returns them and selects a neighbour")
    r.rule("C27.reverse", "reversing the list leaves the selection alone")
    p = Plan(r, "Selection")
    act, cur, par = backing(r, p.cls, "active"), backing(r, p.cls, "_current"), "_parent"
    r.need(act and cur and par in p.plain, "the active and current items of a Selection are not found")
    changes(r, p, act, cur, par)
    setter(r, p, act, cur, par)
    selectable(r)


def changes(r, p, act, cur, par):
    base = runner(r, p, "from psygnal.containers import Selection\n", "C27", "SelectionEvents",
                  "n, item, key, val, one, m, act, cur")

    def run(name, body, **kw):
        return base(name, ["o._data.after = ((one,), m)".replace("_data", p.data), f"o.{act} = act",
                           f"o.{cur} = cur", *body], SELECT, data="Chg(log, item, n)",
                    ret=f"(log, o.{act}, o.{cur})", **kw)
    one, m, a0, c0, key = (P_(k) for k in ("one", "m", "act", "cur", "key"))
    for op, body in (("add", ["o.add(key)"]), ("discard", ["o.discard(key)"]), ("clear", ["o.clear()"]),
                     ("clear keep", ["o.clear(keep_current=True)"]), ("toggle", ["o.toggle(key)"]),
                     ("remove", ["o.symmetric_difference_update((key,))"])):
        f = r.p.method(p.cls, body[0].split("(")[0][2:])
        r.need(f, f"Selection.{op} is gone")
        n = 0
        for x in run(op, body):
            if x.kind != "ret" or marker(x.facts) or same(x, one, NONE) or unreal(x, (one,)):
                continue
            log = flat(entries(x, x.val[1][0]))
            if log is None:
                r.note(f"{op} of a Selection not decided")
                continue
            act1, cur1 = x.val[1][1:3]
            log = alias(log)
            did = [q for q, _ in log if q in ("add", "discard", "clear")]
            told = [a[0] for q, a in log if q == "active" and a]
            if not did:
                r.ob("C27.active", op + " idle", act1 == a0 and not told, f"{op} that changes nothing makes "
                     f"{show(act1)} active", f.node, f)
                if op in ("toggle", "remove") and held(x, key):
                    r.ob("C27.toggle", op, False, f"{op} of a selected item leaves it selected", f.node, f)
                continue
            n += 1
            single = False if did[0] == "clear" else equals(x, m, C(1))
            if single is None and less(x, m, C(1)) is None:
                r.ob("C27.active", op + " looked", False, f"{op} leaves the active item without looking how many "
                     "items are selected", f.node, f)
                continue
            if single:
                r.ob("C27.active", op + " one", same(x, act1, one), f"{op} leaves {show(act1)} active when "
                     "one item is selected", f.node, f)
                r.ob("C27.active", op + " told", told[-1:] == [act1] if same(x, one, a0) is False else not told,
                     f"{op} emits active({', '.join(map(show, told))}) when {show(act1)} becomes active",
                     f.node, f)
                if told:
                    r.ob("C27.current", op, same(x, cur1, act1), f"{op} makes {show(act1)} active and "
                         f"{show(cur1)} current", f.node, f)
            else:
                none = act1 == NONE or same(x, act1, NONE)
                r.ob("C27.active", op + " none", none, f"{op} leaves {show(act1)} active when not exactly one "
                     "item is selected", f.node, f)
                had = same(x, a0, NONE)
                r.ob("C27.active", op + " told", had is not None and told == ([] if had else [NONE]),
                     f"{op} emits active({', '.join(map(show, told))}) when no item stays active", f.node, f)
            if op == "clear":
                r.ob("C27.current", op, same(x, cur1, NONE), f"clearing leaves {show(cur1)} current", f.node, f)
            elif op == "clear keep":
                r.ob("C27.current", op, cur1 == c0, f"clearing makes {show(cur1)} current", f.node, f)
            if op == "toggle":
                h = held(x, key)
                r.ob("C27.toggle", "toggle", h is not None and did[:1] == ["discard" if h else "add"], f"toggling an "
                     f"item that is {'' if h else 'not ' if h is False else 'perhaps '}selected does {did}",
                     f.node, f)
        if not n:
            r.need(op != "add", "adding to a Selection could not be followed")
            r.note(f"{op} of a Selection not decided")
    f = r.p.method(p.cls, "add")
    for x in run("parent", [f"o.{par} = Par(n)", "try:", "    o.add(key)", "except ValueError:",
                            "    log.append(('refused',))"]):
        if x.kind != "ret" or fuzzy(x):
            continue
        log = flat(entries(x, x.val[1][0]))
        if log is None:
            continue
        inn = truth_fact(x.facts, key, "inn")
        names = [q for q, _ in alias(log)]
        if inn is False:
            r.ob("C27.parent", "refused", log == [("refused", ())] and x.val[1][1] == a0, "adding an item that is "
                 f"not in the parent does {txt(log)}", f.node, f)
        elif "add" in names:
            r.ob("C27.parent", "looked", inn is True, "an item is added without looking whether it is in the "
                 "parent", f.node, f)
        elif inn:
            r.ob("C27.parent", "fits", "refused" not in names, "an item of the parent is refused", f.node, f)


def unreal(x, selected):
    """A path on which something selected is not in the selection."""
    return any(held(x, t) is False for t in selected) or any(
        a[1] == "in" and a[2] in selected and not p and any(t in selected for t in walk(a[3]))
        for a, p, _ in x.facts)


def fuzzy(x):
    """A path on which code outside failed."""
    return any("exception from user code" in show(t) for a, _, _ in x.facts if a[1] == "isinstance"
               for t in a[2:3] if isinstance(t, tuple))


def setter(r, p, act, cur, par):
    base = runner(r, p, "from psygnal.containers import Selection\n", "C27", "SelectionEvents",
                  "n, item, key, val, one, act, cur")
    a0, c0, key, val, item = (P_(k) for k in ("act", "cur", "key", "val", "item"))
    f = r.p.method(p.cls, "select_only") or r.p.method(p.cls, "_update_active")

    def run(name, body, after="((key,), 1)"):
        return base(name, [f"o.{p.data}.after = {after}", f"o.{act} = act", f"o.{cur} = cur", *body], SELECT,
                    data="Chg(log, (val, key), 2)", ret=f"(log, o.{act}, o.{cur})")
    n = 0
    for x in run("active", ["o.active = key"]):
        if x.kind != "ret" or marker(x.facts):
            continue
        log = flat(entries(x, x.val[1][0]))
        if log is None:
            r.note("making an item active not decided")
            continue
        log = alias(log)
        act1, cur1 = x.val[1][1:3]
        did = [(q, a) for q, a in log if q in ("add", "discard", "clear")]
        told = [a[0] for q, a in log if q == "active"]
        if same(x, key, a0):
            r.ob("C27.set", "same", not log, f"making the active item active does {txt(log)}", f.node, f)
            continue
        if same(x, key, NONE):
            r.ob("C27.set", "none", did == [("clear", ())] and told[-1:] in ([NONE], [key]), f"making None active "
                 f"does {txt(did)}", f.node, f)
            continue
        if unreal(x, (key,)) or held(x, val) is False:
            continue
        n += 1
        r.ob("C27.set", "active", act1 == key and told[-1:] == [key], f"making an item active leaves {show(act1)} "
             f"active and emits active({', '.join(map(show, told))})", f.node, f)
        r.ob("C27.current", "active", same(x, cur1, key), f"making an item active leaves {show(cur1)} current",
             f.node, f)
        rest = ("discard", (val,)) in did or ("clear", ()) in did or any(
            a[1] == "in" and a[2] == val and q for a, q, _ in x.facts)
        r.ob("C27.set", "rest", rest and ("discard", (key,)) not in did, "making an item active does "
             f"{txt(did)} with another item selected", f.node, f)
    r.need(n, "making an item active could not be followed")
    n = 0
    for x in run("select", ["o.active = key"], "((val,), 1)"):
        if x.kind == "ret" and not marker(x.facts) and held(x, key) is False and same(x, key, a0) is False \
                and same(x, key, NONE) is False:
            log = flat(entries(x, x.val[1][0]))
            if log is not None:
                n += 1
                r.ob("C27.set", "selected", ("add", (key,)) in alias(log), f"making an item active that is not "
                     f"selected does {txt(log)}", f.node, f)
    if not n:
        r.note("making an item active that is not selected not decided")
    for x in run("refuse", [f"o.{par} = Par(n)", "try:", "    o.active = key", "except ValueError:",
                            "    log.append(('refused',))"]):
        if x.kind == "ret" and not fuzzy(x) and truth_fact(x.facts, key, "inn") is False:
            log = flat(entries(x, x.val[1][0]))
            if log is not None and log:
                r.ob("C27.parent", "active", log == [("refused", ())] and x.val[1][1:3] == (a0, c0), "making an "
                     f"item active that is not in the parent does {txt(log)} and leaves {show(x.val[1][1])} active",
                     f.node, f)


SEL = '''class Sel:
    def __init__(self, log, items, size, cur):
        self.log, self.items, self.size, self.cur = log, items, size, cur
    def __len__(self):
        return self.size
    def __iter__(self):
        return iter(self.items)
    def __contains__(self, k):
        return k.held
    def add(self, v):
        self.log.append(("select", v))
    def discard(self, v):
        self.log.append(("unselect", v))
    def remove(self, v):
        self.log.append(("unselect", v))
    def update(self, *v):
        self.log.append(("select all", *v))
    def intersection_update(self, *v):
        self.log.append(("keep", *v))
    def difference_update(self, *v):
        self.log.append(("unselect all", *v))
    def select_only(self, v):
        self.log.append(("activate", v))
    def clear(self, *a, **k):
        self.log.append(("unselect all",))
    @property
    def active(self):
        return self.cur
    @active.setter
    def active(self, v):
        self.log.append(("activate", v))
    @property
    def _current(self):
        return self.cur
    @_current.setter
    def _current(self, v):
        self.log.append(("current", v))
class Row(Store):
    def __getitem__(self, k):
        self.log.append(("get", k))
        return self.item
'''


def selectable(r):
    p = Plan(r, "SelectableEventedList")
    sel = next((backing(r, c, "selection") for c in p.cls.mro if not isinstance(c, str)
                and backing(r, c, "selection")), None)
    r.need(sel, "the selection of a SelectableEventedList is not found")
    base = runner(r, p, "from psygnal.containers import SelectableEventedList\n", "C27", "ListEvents",
                  "n, item, key, val, step, wrap, expand, cur, size, sitems")
    sub = ("    def index(self, v):\n        return v.at\n"
           "    def __contains__(self, v):\n        return v.inn\n"
           "    def remove(self, v):\n        self.log.append(('remove', v))\n")

    def run(name, body, fields=None, data="Row(log, item, n)", items="sitems", size="size", **kw):
        f = {sel: f"Sel(log, {items}, {size}, cur)", "log": "log", **(fields or {})}
        return base(name, body, SEL, sub=sub, fields=f, data=data, **kw)
    key, val, item, n, step, cur = (P_(k) for k in ("key", "val", "item", "n", "step", "cur"))

    def logs(xs, at=None):
        for x in xs:
            if x.kind == "ret" and not fuzzy(x):
                full = entries(x, x.val if at is None else x.val[1][at])
                if full is not None:
                    yield x, full
    f = next((m for m in r.p.funcs.values() if m.name == "selection" and len(m.node.args.args) > 1
              and m.cls is not None and m.cls.qual in [getattr(c, "qual", c) for c in p.cls.mro]), None)
    r.need(f, "the selection cannot be assigned")
    for x, full in logs(run("assign", ["o.selection = val"])):
        log = flat(full)
        if log is None:
            r.note("assigning a selection not decided")
            continue
        names = [q for q, _ in log]
        r.ob("C27.assign", "does", names in (["keep", "select all"], ["unselect all", "select all"]),
             f"assigning a selection does {txt(log)}", f.node, f)
        r.ob("C27.assign", "items", all(any(t == val for t in walk(a)) for q, v in log for a in v),
             f"assigning a selection does {txt(log)}", f.node, f)
        direct = sum(a == val for q, v in log for a in v) + sum(
            1 for e, _ in deep(x.events) if e.kind == "snap" and e.recv == val)
        r.ob("C27.assign", "once", direct <= 1 and (direct == 0 or len([a for _, v in log for a in v]) == 1),
             "the new selection is gone through twice, which an iterator does not allow", f.node, f)
    leave(r, p, run, logs)
    f = r.p.method(p.cls, "insert")
    flag = next((k for k, v in p.plain.items() if v == "True" and k not in ("_hashable",)), None)
    for on in ("True", "False") if flag else ("True",):
        for x, full in logs(run("insert " + on, ["o.insert(key, val)"], {flag: on} if flag else {})):
            log = flat(full)
            if log is None:
                continue
            names = [q for q, _ in log]
            got = [a for q, a in log if q == "activate"]
            r.ob("C27.insert", on, got == ([(val,)] if on == "True" else []) and "insert" in names and (
                not got or names.index("activate") > names.index("insert")), f"inserting does {txt(log)} when the "
                f"switch is {on}", f.node, f)
    steps(r, p, run, logs)
    removal(r, p, run, logs)
    f = r.p.method(p.cls, "reverse")
    for x, full in logs(run("reverse", ["o.reverse()"])):
        log = flat(full)
        if log is not None:
            r.ob("C27.reverse", "plain", not any("select" in q or q == "activate" for q, _ in log), "reversing does "
                 f"{txt(log)}", f.node, f)


def leave(r, p, run, logs):
    """The callbacks the list connects to its own signals when it is made."""
    key, val, item = P_("key"), P_("val"), P_("item")
    init = r.p.method(p.cls, "__init__")
    found = {}
    for x in r.run(init, p.cls, noise=False, opaque_classes={"SignalGroup", "ListEvents", "Selection"}):
        if x.kind != "ret":
            continue
        for e, _ in deep(x.events):
            if e.kind == "call" and e.name == "connect" and e.args and e.recv is not None:
                s = show(e.recv).split(".")[-1]
                if s in ("removed", "changed"):
                    found.setdefault(s, set()).add(e.args[0])
    for s in ("removed", "changed"):
        r.ob("C27.leave", s, s in found, f"nothing is connected to the {s} event of the list", init.node, init)
    for s, args in (("removed", "key, val"), ("changed", "key, val, item")):
        for cb in found.get(s, ()):
            if cb[0] != "bound":
                r.note(f"the callback of {s} is not decided")
                continue
            f = r.p.funcs.get(cb[2])
            name = cb[2].split(".")[-1]
            for x, full in logs(run("leave " + s, [f"o.{name}({args})"])):
                if s == "removed":
                    log = flat(full)
                    r.ob("C27.leave", "removed", log == [("unselect", (val,))], "an item that was removed is not "
                         f"unselected: {txt(log or [])}", f.node, f)
                    continue
                each = [e for e in full if e[0] == "each"]
                if each:
                    for facts, tail in each[0][2]:
                        log = flat(tail) or []
                        for _, a in log:
                            r.ob("C27.leave", "slice", truth_fact(facts, a[0], "inn") is not True and len(log) == 1
                                 and any(t == val for b in (each[0][1], *a) for t in walk(b)),
                                 f"replacing a slice does {txt(log)}", f.node, f)
                        r.ob("C27.leave", "each", log or any(
                            t[0] == "attr" and t[-2] == "inn" and q for at, q, _ in facts for t in walk(at)),
                            "an item of a replaced slice that left the list is not unselected", f.node, f)
                    el = x.st.heap.get((each[0][1], "$elts")) or ()
                    r.ob("C27.leave", "kept", all(
                        e[0] == "each" and len(e[3]) == 1 and all(any(t[0] == "attr" and t[-2] == "inn" for t in walk(at))
                                                                  for at, _, _ in e[3][0][0]) for e in el), "some items of a replaced slice are passed over", f.node, f)
                    r.ob("C27.leave", "slice", any(t for _, t in each[0][2]), "the items of a replaced slice are "
                         "not unselected", f.node, f)
                    continue
                log = flat(full)
                if isa(x, key, "slice"):
                    r.ob("C27.leave", "slice", log is None or log, "the items of a replaced slice are not "
                         "unselected", f.node, f)
                    continue
                if log is None:
                    continue
                inn = truth_fact(x.facts, val, "inn")
                r.ob("C27.leave", "changed", log == ([] if inn else [("unselect", (val,))]), "replacing an item "
                     f"that is {'still' if inn else 'no longer'} in the list does {txt(log)}", f.node, f)


def steps(r, p, run, logs):
    item, n, step, cur = (P_(k) for k in ("item", "n", "step", "cur"))
    f = r.p.method(p.cls, "select_next")
    r.need(f, "select_next is gone")
    at = ("attr", cur, "at", 0)
    count = 0
    for x, full in logs(run("next", ["o.select_next(step, expand, wrap)"])):
        log = flat(full)
        if log is None or not feasible(x):
            continue
        count += 1
        zero = said(x, n) is False or equals(x, n, C(0))
        if zero:
            r.ob("C27.next", "empty", not log, f"select_next on an empty list does {txt(log)}", f.node, f)
            continue
        get = [a[0] for q, a in log if q == "get"]
        wrap, expand = said(x, P_("wrap")), said(x, P_("expand"))
        r.ob("C27.next", "one", len(get) == 1, f"select_next does {txt(log)}", f.node, f)
        if len(get) != 1:
            continue
        r.ob("C27.next", "empty", zero is False or said(x, n) or less(x, C(0), n), "select_next reads an item without "
             "making sure that there is one", f.node, f)
        known = truth_fact(x.facts, cur, "inn")
        some = None if equals(x, P_("size"), C(0)) is None and said(x, P_("size")) is None else not (
            equals(x, P_("size"), C(0)) or said(x, P_("size")) is False)
        k = get[0]
        used = any(t[:3] == at[:3] for t in walk(k))
        r.ob("C27.next", "current", not used or known is True, "the current item is looked up without making "
             "sure that it is in the list", f.node, f)
        up = less(x, C(0), step)
        start = ("op", "+", at, step) if known and some is not False else None
        if start is None and not used and is_const(k) or k[0] == "op" and k[1] == "%":
            inside = True
        else:
            inside = is_const(k) and k[2] in (0, -1) or (
                less(x, k, n) is True and less(x, k, C(0)) is False)
        r.ob("C27.next", "range", inside, f"select_next reads item {show(k)}, which may not be there", f.node, f)
        if start is not None:
            if wrap:
                r.ob("C27.next", "wrap", k[0] == "op" and k[1] == "%" and diff(k[2], start) == 0 and k[3] == n
                     or diff(k, start) == 0, f"select_next with wraparound reads item {show(k)}", f.node, f)
            elif is_const(k):
                out = less(x, start, n) is False or less(x, start, C(0)) is True
                r.ob("C27.next", "end", up is not None and k[2] == (-1 if up else 0) and out, "select_next from "
                     f"within the list stops at item {show(k)}", f.node, f)
            else:
                r.ob("C27.next", "step", diff(k, start) == 0, f"select_next reads item {show(k)}", f.node, f)
        rest = [e for e in log if e[0] != "get"]
        want = [("activate", (item,))] if expand is False else [("select", (item,)), ("current", (item,))]
        r.ob("C27.next", "select", expand is not None and rest == want, f"select_next does {txt(rest)} "
             f"{'' if expand else 'not '}expanding the selection", f.node, f)
    r.need(count, "select_next could not be followed")
    f = r.p.method(p.cls, "select_previous")
    for x in r.run(f, p.cls, noise=False, opaque={"select_next"}) if f else ():
        if x.kind == "ret":
            c = [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "select_next"]
            if len(c) == 1:
                v = [*c[0].args, *[a for _, a in c[0].kw or ()]]
                r.ob("C27.next", "previous", C(-1) in v and P_("expand_selection") in v and P_("wraparound") in v,
                     f"select_previous calls select_next({', '.join(map(show, v))})", f.node, f)
    for op, want in (("select_all", "select all"), ("deselect_all", "unselect all")):
        f = r.p.method(p.cls, op)
        for x, full in logs(run(op, [f"o.{op}()"])) if f else ():
            log = flat(full)
            r.ob("C27.assign", op, log is not None and [q for q, _ in log] == [want], f"{op} does "
                 f"{txt(log or [])}", f.node, f)


def said(x, t):
    for a, p, _ in x.facts:
        if a == t or a[1] in ("truth", "truthv") and a[2] == t:
            return p
    return None


def removal(r, p, run, logs):
    f = r.p.method(p.cls, "remove_selected")
    if f is None:
        return
    for x, full in logs(run("remove", ["res = o.remove_selected()"], ret="(log, res)"), 0):
        each = [e for e in full if e[0] == "each"]
        if len(each) != 1:
            r.note("removing the selected items not decided")
            continue
        r.ob("C27.remove", "all", any(t == P_("sitems") for t in walk(each[0][1])) and all(
            [q for q, _ in flat(t) or ()] == ["remove"] for _, t in each[0][2]), "not each selected item is removed",
            f.node, f)
        lp = next((e for e, _ in deep(x.events) if e.kind == "loop" and not e.extra.get("snap")
                   and any(t == P_("sitems") for t in walk(e.recv or NONE))
                   and any(c.kind == "call" for b in e.extra["bodies"] for c in b.events)), None)
        r.ob("C27.remove", "snapshot", lp is None, "the selection is gone through while its items are removed "
             "from it", lp.node if lp else f.node, f)
        res = x.val[1][1]
        r.ob("C27.remove", "result", any(t == P_("sitems") for t in walk(res)) and res != P_("sitems"),
             f"remove_selected returns {show(res)}", f.node, f)
        i = full.index(each[0])
        log = [e for e in full[i + 1:] if e[0] == "item"]
        if log:
            r.ob("C27.remove", "neighbour", [e[1] for e in log] in (["get", "select"], ["get", "activate"])
                 and less(x, log[0][2][0], P_("n")) is True, f"remove_selected then does "
                 f"{txt([e[1:] for e in log])}", f.node, f)


def wires(x):
    """What is connected to or disconnected from signals found on an object: (object, what, callback, event)."""
    out = []
    for e, stack in deep(x.events):
        if e.kind == "call" and e.name in ("connect", "disconnect") and e.recv is not None:
            src = next((t[2][0] for t in walk(e.recv) if t[0] == "call" and t[2]
                        and show(t[1]).endswith("iter_signal_instances")), None)
            out.append((src, e.name, e.args[0] if e.args else NONE, e))
    return out


@prop("C30", 8)
def c30(r):
    r.rule("C30.enter", "with child_events, the signals of an item that enters the list, by insertion or "
                        "replacement, are connected, and only then")
    r.rule("C30.leave", "the signals of an item that leaves the list, by removal or replacement, are disconnected")
    r.rule("C30.off", "without child_events nothing is connected to the items")
    r.rule("C30.emit", "child_event(index of the item, the item, the signal that was emitted, its arguments)")
    p = Plan(r, "EventedList")
    item, key, val = P_("item"), P_("key"), P_("val")
    flag = next((k for k in p.plain if "child" in k), None)
    r.need(flag, "EventedList has no switch for child events")

    def run(name, on, body, **kw):
        return r.client(("C30", name, on), p.text("n, item, key, val, a1, a2", body, LIST, "ListEvents",
                                                  fields={flag: str(on)}, data="Gone(log, item, n)", extra=gone, **kw),
                        opaque={"iter_signal_instances", "current_emitter"}, opaque_classes=(), noise=False)
    gone = ("class Gone(Store):\n    def pop(self, i=-1, *a):\n        self.log.append(('pop', i))\n"
            "        v = self.item\n        self.item = None\n        return v\n"
            "    def __delitem__(self, i):\n        self.log.append(('del', i))\n        self.item = None\n"
            "    def __setitem__(self, i, v):\n        self.log.append(('set', i, v))\n        self.item = v\n")
    cbs, n = set(), 0
    for op, body in (("insert", "o.insert(key, val)"), ("__setitem__", "o[key] = val"), ("__delitem__", "del o[key]")):
        f = r.p.method(p.cls, op)
        r.need(f, f"EventedList.{op} is gone")
        for on in (True, False):
            for x in run(op, on, [body]):
                if x.kind != "ret":
                    continue
                log = entries(x, x.val)
                w = wires(x)
                if not on:
                    r.ob("C30.off", op, not w, f"{op} connects signals though child events are off", f.node, f)
                    continue
                if log is None or not log:
                    if log == []:
                        r.ob("C30.enter", op + " idle", not w, f"{op} that changes nothing connects or disconnects "
                             "signals", f.node, f)
                    continue
                n += 1
                ins = [s for s, q, c, _ in w if q == "connect"]
                out = [s for s, q, c, _ in w if q == "disconnect"]
                cbs |= {(c[0], c[2]) if c[0] == 'bound' else c for s, q, c, _ in w}
                if None in ins or None in out:
                    r.note(f"the objects whose signals {op} connects are not decided")
                    continue
                if isa(x, key, "slice"):
                    if op == "__setitem__":
                        r.ob("C30.enter", "slice", ins and all(
                            s[0] in ("elem", "item") and of(x, s, val) for s in ins), "replacing a slice "
                             f"connects the signals of {[show(s) for s in ins]}", f.node, f)
                        r.ob("C30.leave", "slice", out and all(
                            s[0] in ("elem", "item") and of(x, s, item) for s in out), "replacing a slice "
                             f"disconnects the signals of {[show(s) for s in out]}", f.node, f)
                    else:
                        r.ob("C30.leave", "slice removed", out and not ins, "deleting a slice connects the signals "
                             f"of {[show(s) for s in ins]}, disconnects those of {[show(s) for s in out]}", f.node, f)
                    continue
                want_in = [] if op == "__delitem__" else [val]
                want_out = [] if op == "insert" else [item]
                r.ob("C30.enter", op, ins == want_in, f"{op} connects the signals of {[show(s) for s in ins]}",
                     f.node, f)
                r.ob("C30.leave", op, out == want_out, f"{op} disconnects the signals of "
                     f"{[show(s) for s in out]}", f.node, f)
    overlap(r, p, flag, gone)
    r.need(n, "no change of an EventedList with child events could be followed")
    r.ob("C30.enter", "callback", len(cbs) == 1 and all(c[0] == "bound" for c in cbs), "different callbacks are "
         f"connected and disconnected: {sorted(str(c[1]) for c in cbs)}", r.p.method(p.cls, "insert").node,
         r.p.method(p.cls, "insert"))
    for cb in cbs:
        if cb[0] == "bound":
            emission(r, p, cb[1], run)


def overlap(r, p, flag, gone):
    """Replacing a slice by one that shares an item: that item stays connected once."""
    f = r.p.method(p.cls, "__setitem__")
    for given in ("[k2, k3]", "[k3, k2]", "[k1, k2]"):
        text = p.text("n, item, key, val", [f"o[0:2] = {given}"], LIST, "ListEvents", fields={flag: "True"},
                      data="Gone(log, [k1, k2], n)", extra=gone + "class Kid:\n    pass\n")
        head = "def client(n, item, key, val):"
        text = text.replace(head, head + "\n    k1 = Kid()\n    k2 = Kid()\n    k3 = Kid()", 1)
        for x in r.client(("C30", "overlap", given), text, opaque={"iter_signal_instances", "current_emitter"},
                          opaque_classes=(), noise=False):
            if x.kind != "ret":
                continue
            w = wires(x)
            kids = [e.res for e, _ in deep(x.events) if e.kind == "alloc" and e.name == "Kid"]
            if len(kids) != 3 or any(s not in kids for s, *_ in w):
                r.note("the objects whose signals replacing a slice connects are not decided")
                continue
            for i, k in enumerate(kids):
                # (disconnecting what is not connected does nothing)
                heard = int(i < 2)
                for s, q, _, _ in w:
                    if s == k:
                        heard = heard + 1 if q == "connect" else max(heard - 1, 0)
                want = int(f"k{i + 1}" in given)
                r.ob("C30.enter" if want else "C30.leave", "shared", heard == want, f"an item that a slice of two items "
                     f"{'keeps' if i < 2 and want else 'gains' if want else 'loses'} is connected {heard} times",
                     f.node, f)


def of(x, t, source, depth=4):
    """Is t an element of something made from source?"""
    if any(k == source for k in walk(t)):
        return True
    for k in walk(t) if depth else ():
        el = x.st.heap.get((k, "$elts")) if k[0] in ("list", "set", "dict") else None
        for e in el or ():
            if e[0] in ("each", "spread") and of(x, e[2] if e[0] == "each" else e[1], source, depth - 1):
                return True
            if e[0] == "item" and of(x, e[1], source, depth - 1):
                return True
    return False


def emission(r, p, qual, run):
    f = r.p.funcs.get(qual)
    r.need(f, "the callback of child events is gone")
    name = qual.split(".")[-1]
    n = exact = 0
    for x in run("emit", True, [f"o.{name}(a1, a2)"]):
        if x.kind != "ret":
            continue
        log = flat(entries(x, x.val))
        if not log:
            continue
        n += 1
        em = next((e.res for e, _ in deep(x.events) if e.kind == "call" and e.name == "current_emitter"), None)
        if em is None or [q for q, _ in log] != ["child_event"] or len(log[0][1]) != 4:
            r.ob("C30.emit", "once", [q for q, _ in log] == ["child_event"], f"a child's event does {txt(log)}",
                 f.node, f)
            continue
        idx, obj, sig, args = log[0][1]
        info = any(q and a[1] == "isinstance" and a[2] == P_("a1") and a[3][0] in ("cls", "ext") and
                   "EmissionInfo" in show(a[3]) for a, q, _ in x.facts)
        relay = any(q and a[1] == "isinstance" and a[2] == em and "Relay" in show(a[3]) for a, q, _ in x.facts)
        r.ob("C30.emit", "object", obj[:3] == ("attr", em, "instance"), f"child_event carries the object {show(obj)}",
             f.node, f)
        if info and relay:
            ok = (show(sig), show(args)) in (("a1[0]", "a1[1]"), ("a1.signal", "a1.args"))
        else:
            ok = sig == em and args == ("tuple", (P_("a1"), P_("a2")))
        r.ob("C30.emit", "signal", ok, f"child_event carries {show(sig)} and {show(args)}", f.node, f)
        found = [a for a, q, _ in x.facts if a[1] == "is" and q and obj in a[2:4]]
        exact += bool(found)
        r.ob("C30.emit", "index", found or any(t == obj for t in walk(idx)) or idx[0] in ("idx", "lv", "item"),
             f"child_event carries the index {show(idx)}", f.node, f)
    r.need(n, "the emission of child_event could not be followed")
    r.ob("C30.emit", "itself", exact, "child_event carries the index of the first item that is equal to the one that "
         "changed, not of the item itself", f.node, f)
