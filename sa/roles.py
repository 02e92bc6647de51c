"""Which private fields play which role, discovered from the public methods."""

from __future__ import annotations

from .absint import LOCKS
from .q import SELF, calls, deep, truth_of
from .terms import TRUE, is_const


class Roles:
    pass


def _self_field(t):
    return t[2] if isinstance(t, tuple) and t[0] == "attr" and t[1] == SELF else None


def signal_roles(r):
    """Roles of the fields of SignalInstance."""
    if hasattr(r.p, "_sigroles"):
        return r.p._sigroles
    p = r.p
    c = p.find_class("SignalInstance")
    R = Roles()
    R.cls = c
    R.slots = R.blocked = R.paused = R.lock = R.argsq = R.emitq = R.depth = None
    for x in r.run(p.method(c, "__len__"), c):
        if x.val and x.val[0] == "op" and x.val[1] == "len":
            R.slots = _self_field(x.val[2]) or R.slots
    for m, role in (("block", "blocked"), ("pause", "paused")):
        for x in r.run(p.method(c, m), c):
            for e, _ in deep(x.events):
                if e.kind == "store" and e.recv == SELF and e.args and e.args[0] == TRUE:
                    setattr(R, role, e.name)
    eng = r.last
    locks = [n for n, t in eng.field_types(c).items() if t and t[0] in LOCKS]
    R.locks = locks
    R.lock = locks[0] if locks else None
    f = p.method(c, "emit")
    for x in r.run(f, c):
        for e in calls(x.events):
            if e.name in ("append", "put", "appendleft", "extend") and e.recv is not None:
                fld = _self_field(e.recv)
                if fld is None:
                    continue
                pz = truth_of(x, ("attr", SELF, R.paused)) if R.paused else None
                if pz:
                    R.argsq = R.argsq or fld
                elif fld != R.slots:
                    R.emitq = R.emitq or fld
        for a, pol, _ in x.facts:
            if a[1] == "<" and is_const(a[3]) and isinstance(a[3][2], int) and a[3][2] > 50:
                fld = _self_field(a[2])
                if fld:
                    R.depth = R.depth or fld
                    R.limit = a[3][2]
    R.slots = R.slots or "_slots"
    R.blocked = R.blocked or "_is_blocked"
    R.paused = R.paused or "_is_paused"
    R.argsq = R.argsq or "_args_queue"
    R.emitq = R.emitq or "_emit_queue"
    R.depth = R.depth or "_recursion_depth"
    for n in ("slots", "blocked", "paused", "argsq", "emitq", "depth"):
        setattr(R, n + "_t", ("attr", SELF, getattr(R, n)))
    p._sigroles = R
    return R
