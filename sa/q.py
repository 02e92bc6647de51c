"""Queries over paths produced by the flow analysis."""

from __future__ import annotations

from .terms import is_const, strip_ver, walk

SELF = ("param", "self")


def attr(b, *names):
    for n in names:
        b = ("attr", b, n)
    return b


def place(t):
    return strip_ver(t) if isinstance(t, tuple) else t


def is_attr(t, name, base=SELF):
    return (isinstance(t, tuple) and t and t[0] == "attr" and t[2] == name
            and (base is None or t[1] == base))


def deep(events, inloop=()):
    """(event, enclosing loop events) including loop bodies; partial tails are already
    in the event list of the path itself."""
    for e in events:
        yield e, inloop
        if e.kind == "loop":
            for b in e.extra["bodies"]:
                yield from deep(b.events, (*inloop, e))


def tail_start(events):
    """Index after which events belong to an abandoned (partial) loop iteration."""
    return len(events)


def loops(events, src=None):
    for e, stack in deep(events):
        if e.kind == "loop" and (src is None or (e.recv is not None and place(e.recv) == place(src))):
            yield e, stack


def calls(events, name=None, recv=None):
    for e, _ in deep(events):
        if e.kind == "call" and (name is None or e.name == name) and (
                recv is None or (e.recv is not None and place(e.recv) == place(recv))):
            yield e


def top(events, kind=None, name=None, recv=None):
    """Events on the path itself, not inside loop summaries."""
    for e in events:
        if (kind is None or e.kind == kind) and (name is None or e.name == name) and (
                recv is None or (e.recv is not None and place(e.recv) == place(recv))):
            yield e


def fact(path, pred, upto=None):
    """Polarity of the first fact whose atom satisfies pred, or None."""
    fs = path.facts if upto is None else path.facts[:upto]
    for a, p, _ in fs:
        if pred(a):
            return p
    return None


def truth_of(path, term, upto=None):
    """Known truth of a field/param on this path (first test), or None."""
    t = place(term)

    def m(a):
        return a[1] in ("truth", "truthv") and place(a[2]) == t
    r = fact(path, m, upto)
    if r is not None:
        return r
    for a, p, _ in (path.facts if upto is None else path.facts[:upto]):
        if a[1] in ("is", "==") and place(a[2]) == t and is_const(a[3]):
            v = a[3][2]
            if p:
                return bool(v)
            if isinstance(v, bool):
                return not v
    return None


def eq_const(path, term, value):
    t = place(term)
    for a, p, _ in path.facts:
        if a[1] in ("==", "is") and place(a[2]) == t and is_const(a[3]) and a[3][2] == value \
                and type(a[3][2]) is type(value):
            return p
    for a, p, _ in path.facts:
        if p and a[1] in ("==", "is") and place(a[2]) == t and is_const(a[3]):
            return False
    return None


def strip_star(args):
    return tuple(a for a in args)


def heap(path, b, name):
    return path.st.heap.get((b, name))


def terms_in(path):
    for e, _ in deep(path.events):
        for t in (e.recv, e.fn, *e.args, *(v for _, v in e.kw)):
            if isinstance(t, tuple):
                yield from walk(t)


def covers(cases):
    """Do these lists of (atom, polarity, ...) facts cover every situation?"""
    cases = [dict((f[0], f[1]) for f in c) for c in cases]

    def rec(cs, depth):
        if any(not c for c in cs):
            return True
        if not cs or depth > 12:
            return False
        atom = next(iter(cs[0]))
        return all(rec([{k: v for k, v in c.items() if k != atom} for c in cs
                        if c.get(atom, pol) == pol], depth + 1) for pol in (True, False))
    return rec(cases, 0)
