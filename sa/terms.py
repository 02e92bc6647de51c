"""Abstract values ("provenance terms") used by the dataflow analysis.

A term says where a value came from (parameter, field, loop element, call result ...),
never what it is at run time.  Terms are nested tuples, hence hashable and comparable.
"""

from __future__ import annotations


def C(v):
    return ("const", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t[0] == "const"


def cval(t):
    return t[2]


def tup(*xs):
    return ("tuple", tuple(xs))


def ext(d):
    return ("ext", d)


def show(t, depth=0):
    """Readable rendering of a term for reports."""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return repr(t)
    if depth > 6:
        return "..."
    k = t[0]
    s = lambda x: show(x, depth + 1)  # noqa: E731
    if k == "const":
        return repr(t[2])
    if k == "param":
        return t[1]
    if k in ("ext", "cls", "fn", "mod", "glob"):
        return t[1].split(".")[-1]
    if k == "attr":
        return f"{s(t[1])}.{t[2]}"
    if k == "item":
        return f"{s(t[1])}[{s(t[2])}]"
    if k == "slice":
        return f"{s(t[1])}[{s(t[2])}:{s(t[3])}]"
    if k == "tuple":
        return "(" + ", ".join(s(x) for x in t[1]) + ")"
    if k == "star":
        return "*" + s(t[1])
    if k == "op":
        return f"{t[1]}({', '.join(s(x) for x in t[2:])})"
    if k == "call":
        a = [s(x) for x in t[2]] + [f"{n}={s(v)}" for n, v in t[3]]
        return f"{s(t[1])}({', '.join(a)})"
    if k == "bound":
        return f"{s(t[1])}.{t[2].split('.')[-1]}"
    if k in ("elem", "key", "val", "idx"):
        return f"{k}-of({s(t[1])})"
    if k == "obj":
        return f"<new {t[2].split('.')[-1]}>"
    if k == "super":
        return "super()"
    if k == "partial":
        return f"partial({s(t[1])}, ...)"
    if k in ("list", "dict", "set"):
        return f"<local {k}>"
    if k == "exc":
        return f"<exception {s(t[1]) if t[1] else 'from user code'}>"
    if k == "lv":
        return f"{t[2]}@loop"
    if k == "unk":
        return f"?{t[1]}"
    if k == "type":
        return f"type({s(t[1])})"
    return k


def walk(t):
    """All sub-terms of a term, itself included."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def mentions(t, sub):
    return any(x == sub for x in walk(t))


def subst(t, mp, memo=None):
    """Replace sub-terms according to the mapping `mp` (bottom-up, then re-normalise)."""
    if not isinstance(t, tuple):
        return t
    if memo is None:
        memo = {}
    try:
        if t in memo:
            return memo[t]
    except TypeError:
        return t
    if t in mp:
        r = mp[t]
    else:
        r = tuple(subst(x, mp, memo) if isinstance(x, tuple) else x for x in t)
        if r in mp:
            r = mp[r]
    memo[t] = r
    return r


def strip_ver(t):
    """Drop versions/sites: two terms with the same stripped form name the same place."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "attr":
        return ("attr", strip_ver(t[1]), t[2])
    if t[0] == "item":
        return ("item", strip_ver(t[1]), strip_ver(t[2]))
    if t[0] == "slice":
        return ("slice", *(strip_ver(x) for x in t[1:5]))
    if t[0] in ("elem", "key", "val", "idx"):
        return (t[0], strip_ver(t[1]))
    if t[0] == "call":
        return ("call", strip_ver(t[1]), tuple(strip_ver(x) for x in t[2]),
                tuple((n, strip_ver(v)) for n, v in t[3]))
    if t[0] == "op" and t[1] == "truthv":
        return ("op", "truth", strip_ver(t[2]))
    if t[0] == "op" and t[1] == "len":
        return ("op", "len", strip_ver(t[2]))
    return tuple(strip_ver(x) if isinstance(x, tuple) else x for x in t)


def same_place(a, b):
    return strip_ver(a) == strip_ver(b)
