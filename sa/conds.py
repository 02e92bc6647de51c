"""Normalisation of branch conditions and a small decision procedure over known facts.

No solver: facts are atoms with a polarity; deciding an atom is table lookup plus a few
syntactic consequences (None-ness, distinct constants, class hierarchy, integer bounds).
"""

from __future__ import annotations

import builtins

from .terms import C, FALSE, NONE, TRUE, cval, is_const

NEG = {"!=": "==", "is not": "is", "not in": "in", ">=": "<", "<=": None, ">": None}

ALWAYS_TRUE = {"cls", "fn", "mod", "bound", "closure", "partial", "obj", "exc", "type", "code"}


def int_like(t):
    if is_const(t):
        return isinstance(t[2], int)
    if t[0] == "op" and t[1] in ("len", "+", "-"):
        if t[1] == "len":
            return True
        return all(int_like(x) for x in t[2:])
    return t[0] in ("idx",)


def normalise(t):
    """term used as a condition -> (atom, polarity); atom may be True/False."""
    pol = True
    while True:
        if is_const(t):
            return (bool(cval(t)) == pol, True)
        k = t[0]
        if k in ALWAYS_TRUE:
            return (pol, True)
        if k == "tuple":
            if any(x[0] != "star" for x in t[1]):
                return (pol, True)
            if not t[1]:
                return (not pol, True)
        if k == "op":
            o = t[1]
            if o == "not":
                t = t[2]
                pol = not pol
                continue
            if o in ("!=", "is not", "not in"):
                t = ("op", NEG[o], *t[2:])
                pol = not pol
                continue
            if o == ">=":
                t = ("op", "<", *t[2:])
                pol = not pol
                continue
            if o == ">":
                t = ("op", "<", t[3], t[2])
                continue
            if o == "<=":
                t = ("op", "<", t[3], t[2])
                pol = not pol
                continue
            if o == "len":
                return (("op", "truthv", t[2], t[3]), pol)
            if o == "<":
                a, b = t[2], t[3]
                a, b = shift(a, b)
                if is_const(a) and is_const(b):
                    try:
                        return ((cval(a) < cval(b)) == pol, True)
                    except TypeError:
                        pass
                if is_const(a) and isinstance(cval(a), int) and not is_const(b):
                    # c < x  ==  not (x < c+1)
                    if int_like(b):
                        t = ("op", "<", b, C(int(cval(a)) + 1))
                        pol = not pol
                        a, b = t[2], t[3]
                if a[0] == "op" and a[1] == "len" and is_const(b) and b[2] == 1:
                    return (("op", "truthv", a[2], a[3]), not pol)
                if a[0] == "op" and a[1] == "len" and is_const(b) and b[2] == 0:
                    return (not pol, True)
                if a == b:
                    return (not pol, True)
                return (("op", "<", a, b), pol)
            if o in ("==", "is"):
                a, b = t[2], t[3]
                if a == b and a[0] not in ("unk",):
                    return (pol, True)
                if is_const(a) and not is_const(b):
                    a, b = b, a
                if is_const(a) and is_const(b):
                    return ((a[1:] == b[1:] or (o == "==" and cval(a) == cval(b))) == pol, True)
                if o == "==" and a[0] == b[0] == "tuple":
                    q = same_tuple(a, b)
                    if q is not None:
                        return (q == pol, True)
                if o == "==":
                    a, b = shift(a, b)
                    if is_const(a) and not is_const(b):
                        a, b = b, a
                    if is_const(b) and cval(b) == 0 and a[0] == "op" and a[1] == "len":
                        return (("op", "truthv", a[2], a[3]), not pol)
                    if b == NONE:
                        o = "is"
                if is_const(b) and isinstance(b[2], bool) and a[0] == "op" and a[1] in (
                        "isinstance", "is", "==", "in", "<", "callable", "hasattr"):
                    t = a
                    pol = pol if b[2] else not pol
                    continue
                if b == NONE and a[0] in ALWAYS_TRUE | {"tuple", "list", "dict", "set", "new"}:
                    return (not pol, True)
                if b[0] in ("cls", "ext", "fn", "glob") and a[0] in ("cls", "ext", "fn", "glob"):
                    if a[0] != "glob" and b[0] != "glob":
                        return ((a == b) == pol, True)
                if not is_const(b) and repr(b) < repr(a):
                    a, b = b, a
                return (("op", o, a, b), pol)
            if o == "truth":
                t = t[2]
                if is_const(t) or t[0] in ALWAYS_TRUE or t[0] == "op":
                    continue
                return (("op", "truth", t), pol)
            if o in ("isinstance", "in", "callable", "hasattr", "truthv", "issubclass"):
                return (t, pol)
        return (("op", "truth", t), pol)


def same_tuple(a, b):
    """Are two tuples equal, as far as their constants tell?"""
    if any(t[0] == "star" for t in (*a[1], *b[1])):
        return None
    if len(a[1]) != len(b[1]):
        return False
    out = True
    for x, y in zip(a[1], b[1]):
        q = None
        if is_const(x) and is_const(y):
            q = cval(x) == cval(y)
        elif x[0] == y[0] == "tuple":
            q = same_tuple(x, y)
        if q is False:
            return False
        out = out if q else None
    return out


def split(t):
    """t = base + const for integer arithmetic."""
    c = 0
    while t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        if is_const(t[3]) and isinstance(t[3][2], int) and not isinstance(t[3][2], bool):
            c += t[3][2] if t[1] == "+" else -t[3][2]
            t = t[2]
        elif (t[1] == "+" and is_const(t[2]) and isinstance(t[2][2], int)
              and not isinstance(t[2][2], bool)):
            c += t[2][2]
            t = t[3]
        else:
            break
    return t, c


def mk_add(t, c):
    if c == 0:
        return t
    if is_const(t) and isinstance(cval(t), (int, float)):
        return C(cval(t) + c)
    return ("op", "+", t, C(c)) if c > 0 else ("op", "-", t, C(-c))


def shift(a, b):
    """Move integer constants of a comparison to one side."""
    ta, ca = split(a)
    tb, cb = split(b)
    if ca == 0 and cb == 0:
        return a, b
    if is_const(ta) and isinstance(ta[2], int):
        # const + ca  <  tb + cb
        return C(cval(ta) + ca - cb), tb
    if is_const(tb) and isinstance(tb[2], int):
        return ta, C(cval(tb) + cb - ca)
    d = cb - ca
    if d >= 0:
        return ta, mk_add(tb, d)
    return mk_add(ta, -d), tb


def ext_class(d):
    n = d.split(".")[-1]
    return getattr(builtins, n, None) if d.startswith("builtins.") else None


class Facts:
    """Ordered facts of a path with decision by lookup + simple consequences."""

    __slots__ = ("d", "order", "prog")

    def __init__(self, prog, d=None, order=()):
        self.prog = prog
        self.d = {} if d is None else d
        self.order = order

    def copy(self):
        return Facts(self.prog, dict(self.d), self.order)

    def add(self, atom, pol, node=None):
        if atom in self.d:
            return
        self.d[atom] = pol
        self.order = (*self.order, (atom, pol, node))

    def decide(self, atom):
        if atom is True or atom is False:
            return atom
        d = self.d
        if atom in d:
            return d[atom]
        o = atom[1]
        if o == "is" and atom[3] == NONE:
            x = atom[2]
            for (a, p) in d.items():
                if p and a[1] in ("truth", "callable", "isinstance") and a[2] == x:
                    if a[1] == "isinstance" and "NoneType" in repr(a[3]):
                        continue
                    return False
                if p and a[1] == "truthv" and a[2] == x:
                    return False
                if p and a[1] in ("==", "is") and a[2] == x and is_const(a[3]) and a[3] != NONE:
                    return False
        elif o in ("truth", "truthv"):
            x = atom[2]
            for (a, p) in d.items():
                if p and a[1] == "is" and a[2] == x and a[3] == NONE:
                    return False
                if p and a[1] in ("==", "is") and a[2] == x and is_const(a[3]):
                    return bool(cval(a[3]))
                if o == "truth" and p and a[1] == "isinstance" and a[2] == x:
                    if a[3][0] == "ext" and a[3][1].split(".")[-1] in (
                            "FunctionType", "MethodType", "BuiltinMethodType"):
                        return True
            if o == "truthv":
                # len(x) < c facts
                for (a, p) in d.items():
                    if (a[1] == "<" and a[2] == ("op", "len", x, atom[3]) and is_const(a[3])):
                        if p and cval(a[3]) <= 1:
                            return False
                        if not p and cval(a[3]) >= 1:
                            return True
        elif o in ("==", "is"):
            x, y = atom[2], atom[3]
            if is_const(y):
                for (a, p) in d.items():
                    if p and a[1] in ("==", "is") and a[2] == x and is_const(a[3]):
                        if a[3] == y:
                            return True
                        if cval(a[3]) != cval(y):
                            return False
                    if (p and a[1] == "isinstance" and a[2] == x and a[3][0] == "ext"
                            and y != NONE):
                        cl = ext_class(a[3][1])
                        if isinstance(cl, type) and not isinstance(cval(y), cl):
                            return False
                    if (not p and a[1] == "isinstance" and a[2] == x and a[3][0] == "ext"):
                        cl = ext_class(a[3][1])
                        if isinstance(cl, type) and isinstance(cval(y), cl):
                            return False
                if o == "==" and y != NONE and d.get(("op", "is", x, NONE)):
                    return False
                if isinstance(cval(y), bool) and False:
                    pass
            if o == "==" and d.get(("op", "is", x, y)):
                return True
            if o == "is" and d.get(("op", "==", x, y)) is False and not is_const(y):
                return False
        elif o == "isinstance":
            x, cl = atom[2], atom[3]
            r = self._isinstance(x, cl)
            if r is not None:
                return r
        elif o == "<":
            a1, b1 = atom[2], atom[3]
            if is_const(b1) and isinstance(cval(b1), (int, float)):
                c = cval(b1)
                for (a, p) in d.items():
                    if a[1] == "<" and a[2] == a1 and is_const(a[3]):
                        k = cval(a[3])
                        if p and k <= c:
                            return True
                        if not p and k >= c:
                            return False
                    if p and a[1] == "==" and a[2] == a1 and is_const(a[3]):
                        try:
                            return cval(a[3]) < c
                        except TypeError:
                            pass
                if a1[0] == "op" and a1[1] == "len":
                    tv = d.get(("op", "truthv", a1[2], a1[3]))
                    if tv is False and c >= 1:
                        return True
                    if tv is True and c <= 1:
                        return False
            else:
                if d.get(("op", "<", b1, a1)):
                    return False
                if d.get(("op", "==", a1, b1)) or d.get(("op", "==", b1, a1)):
                    return False
        elif o == "callable":
            x = atom[2]
            for (a, p) in d.items():
                if p and a[1] == "isinstance" and a[2] == x and a[3][0] == "ext":
                    if a[3][1].split(".")[-1] in ("FunctionType", "MethodType", "partial",
                                                  "BuiltinMethodType", "MethodWrapperType"):
                        return True
                if p and a[1] == "is" and a[2] == x and a[3] == NONE:
                    return False
        return None

    def _isinstance(self, x, cl):
        d = self.d
        if is_const(x):
            if cl[0] == "ext":
                c = ext_class(cl[1])
                if isinstance(c, type):
                    return isinstance(cval(x), c)
                return False
            return False
        for (a, p) in d.items():
            if a[1] == "isinstance" and a[2] == x:
                if p:
                    s = self.subclass(a[3], cl)
                    if s:
                        return True
                    if s is False and self.disjoint(a[3], cl):
                        return False
                else:
                    if self.subclass(cl, a[3]):
                        return False
            if p and a[1] == "is" and a[2] == x and a[3] == NONE:
                return False
            if p and a[1] in ("==", "is") and a[2] == x and is_const(a[3]) and cl[0] == "ext":
                c = ext_class(cl[1])
                if isinstance(c, type) and a[1] == "is":
                    return isinstance(cval(a[3]), c)
        if x[0] == "exc" and x[1]:
            return self.subclass(x[1], cl)
        return None

    def subclass(self, a, b):
        """Is class term a a subclass of class term b?"""
        if a == b:
            return True
        if b == ("ext", "builtins.object"):
            return True
        if a[0] == "cls":
            if b[0] == "cls":
                return self.prog.is_subclass(a[1], b[1])
            if b[0] == "ext":
                r = self.prog.is_subclass(a[1], b[1])
                if r is None or r is False:
                    c = self.prog.classes.get(a[1])
                    bb = ext_class(b[1])
                    for m in c.mro if c else ():
                        if isinstance(m, str):
                            e = getattr(builtins, m.split(".")[-1], None)
                            if isinstance(e, type) and isinstance(bb, type) and issubclass(e, bb):
                                return True
                    return r
                return r
        if a[0] == "ext" and b[0] == "ext":
            ca, cb = ext_class(a[1]), ext_class(b[1])
            if isinstance(ca, type) and isinstance(cb, type):
                return issubclass(ca, cb)
            return None
        if a[0] == "ext" and b[0] == "cls":
            return False if ext_class(a[1]) else None
        return None

    def disjoint(self, a, b):
        """Can no object be an instance of both?  (only for classes known to conflict)"""
        if a[0] == "ext" and b[0] == "ext":
            ca, cb = ext_class(a[1]), ext_class(b[1])
            solid = (int, str, tuple, list, dict, set, slice, float)
            if ca in solid and cb in solid:
                return not (issubclass(ca, cb) or issubclass(cb, ca))
            fam = {"FunctionType", "MethodType", "BuiltinMethodType", "MethodWrapperType"}
            if a[1].split(".")[-1] in fam and b[1].split(".")[-1] in fam | {"partial"}:
                return True
            if b[1].split(".")[-1] in fam and a[1].split(".")[-1] in {"partial"}:
                return True
            if isinstance(ca, type) and isinstance(cb, type):
                if issubclass(ca, BaseException) and issubclass(cb, BaseException):
                    return not (issubclass(ca, cb) or issubclass(cb, ca))
            solidn = {"FunctionType", "MethodType", "BuiltinMethodType", "partial"}
            if (ca in solid and b[1].split(".")[-1] in solidn) or (
                    cb in solid and a[1].split(".")[-1] in solidn):
                return True
        if a[0] == "cls" and b[0] == "cls":
            return False
        if "cls" in (a[0], b[0]):
            e = a if a[0] == "ext" else b
            if e[1].split(".")[-1] in ("FunctionType", "MethodType", "partial", "int", "str",
                                       "BuiltinMethodType", "MethodWrapperType", "slice"):
                return True
            c = a if a[0] == "cls" else b
            ce = ext_class(e[1])
            if isinstance(ce, type) and issubclass(ce, BaseException):
                # exception classes: RecursionError vs EmitLoopError
                s1, s2 = self.subclass(c, e), None
                return s1 is False or s1 is None
        return False
