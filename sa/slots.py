"""The slot list of a signal: who changes it, and how."""

from __future__ import annotations

from .absint import MUTATORS
from .q import SELF, deep, place
from .roles import signal_roles

ADD = {"append", "insert", "extend", "__i+", "appendleft", "put"}
DROP = {"pop", "remove", "clear", "popleft"}


def mutations(events, R, slots=None):
    """(event, loop stack, operation) for everything that changes the slot list."""
    sl = slots or R.slots_t
    for e, st in deep(events):
        if e.kind == "call" and e.recv is not None and place(e.recv) == sl and not (
                e.extra or {}).get("raised"):
            if e.name in MUTATORS or e.name.startswith("__i"):
                yield e, st, e.name
        elif e.kind in ("setitem", "delitem") and e.recv is not None and place(e.recv) == sl:
            yield e, st, e.kind
        elif e.kind == "store" and e.recv == sl[1] and e.name == sl[2]:
            yield e, st, "store"


def holds(e, R):
    return any(place(x)[0] == "attr" and place(x)[1] == SELF and place(x)[2] in R.locks
               for x in e.locks)


def public(cls, p):
    """Public methods, defined in the class or inherited inside the repository."""
    seen = {}
    for m in cls.mro:
        if isinstance(m, str):
            continue
        for n, f in m.methods.items():
            if n not in seen:
                seen[n] = f
    for n, f in sorted(seen.items()):
        if not n.startswith("_") or n in ("__call__", "__contains__", "__len__", "__repr__",
                                          "__setstate__", "__getstate__"):
            yield n, f


def instance_classes(p, r):
    """SignalInstance and its subclasses in the repository."""
    base = signal_roles(r).cls
    return [c for c in p.classes.values()
            if any(not isinstance(m, str) and m is base for m in c.mro)]
