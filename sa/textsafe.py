"""Where building a message runs code of the user (str() or repr() of a value of theirs).

A small taint analysis over the syntax tree: values of the user enter through given parameters, flow
through assignments, items, loops and arguments of package functions, and are formatted by f-strings,
%, str.format, str(), repr(), format() and ascii().  A place is safe inside a `try` that handles
Exception or inside `with suppress(Exception)`.
"""

from __future__ import annotations

import ast

#: attributes of a value of the user that are objects of the user themselves
USER_ATTRS = {"instance", "args"}
FORMATTERS = {"str", "repr", "format", "ascii"}
WIDE = {"Exception", "BaseException"}


def last(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None


def handles_all(t):
    for h in t.handlers:
        ks = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        if any(k is None or last(k) in WIDE for k in ks):
            return True
    return False


def suppresses(w):
    return any(isinstance(i.context_expr, ast.Call) and last(i.context_expr.func) == "suppress"
               and any(last(a) in WIDE for a in i.context_expr.args) for i in w.items)


class Text:
    def __init__(self, program):
        self.p = program
        self.hits = []          # (function, node, what)
        self.seen = {}          # (function, tainted parameters) -> does it give back a value of the user
        self.places = 0

    # -- values

    def user(self, e, T, f):
        """Is the value of the expression an object of the user (or a container of some)?"""
        if isinstance(e, ast.Name):
            return e.id in T
        if isinstance(e, ast.Attribute):
            return e.attr == "f_locals" or e.attr in USER_ATTRS and self.user(e.value, T, f)
        if isinstance(e, (ast.Subscript, ast.Starred, ast.Await)):
            return self.user(e.value, T, f)
        if isinstance(e, ast.NamedExpr):
            return self.user(e.value, T, f)
        if isinstance(e, ast.IfExp):
            return self.user(e.body, T, f) or self.user(e.orelse, T, f)
        if isinstance(e, ast.BoolOp):
            return any(self.user(v, T, f) for v in e.values)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return any(self.user(v, T, f) for v in e.elts)
        if isinstance(e, ast.Dict):
            return any(self.user(v, T, f) for v in e.values)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.user(e.elt, self.comp(e, T, f), f)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    "items", "values", "keys", "copy", "get", "pop", "popleft") and self.user(e.func.value, T, f):
                return True
            if last(e.func) in ("list", "tuple", "iter", "reversed", "sorted", "next", "enumerate", "zip",
                                "cast", "deque") and any(self.user(a, T, f) for a in e.args):
                return True
            g, t = self.callee(e, T, f)
            return bool(g and t and self.gives(g, t))
        return False

    def comp(self, e, T, f):
        T = set(T)
        for g in e.generators:
            if self.user(g.iter, T, f):
                T |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        return T

    def callee(self, e, T, f):
        """The package function called and which of its parameters get values of the user."""
        g = None
        if isinstance(e.func, ast.Name):
            g = next((h for h in self.p.funcs.values() if h.cls is None and h.module is f.module
                      and h.node is not None and getattr(h.node, "name", None) == e.func.id), None) or next(
                (h for h in self.p.funcs.values() if h.cls is None and getattr(h.node, "name", None) == e.func.id
                 and h.qual.count(".") == 2), None)
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and f.cls is not None \
                and f.node.args.args and e.func.value.id == f.node.args.args[0].arg:
            m = self.p.lookup(f.cls, e.func.attr) if not isinstance(f.cls, str) else None
            g = m[1] if m and m[0] == "method" else None
        if g is None or not isinstance(g.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return None, ()
        a = g.node.args
        names = [p.arg for p in (*a.posonlyargs, *a.args)]
        if g.cls is not None and isinstance(e.func, ast.Attribute):
            names = names[1:]
        t = {n for n, v in zip(names, e.args) if self.user(v, T, f)}
        if len(e.args) > len(names) and a.vararg and any(self.user(v, T, f) for v in e.args[len(names):]):
            t.add(a.vararg.arg)
        t |= {k.arg for k in e.keywords if k.arg and self.user(k.value, T, f)}
        return g, frozenset(t)

    def gives(self, g, t):
        key = (g.qual, t)
        if key not in self.seen:
            self.seen[key] = False
            T = self.locals_of(g, t)
            self.seen[key] = any(isinstance(n, ast.Return) and n.value is not None and self.user(n.value, T, g)
                                 for n in ast.walk(g.node))
        return self.seen[key]

    def locals_of(self, f, t):
        """Names holding values of the user somewhere in the function."""
        T = set(t)
        while True:
            n0 = len(T)
            for n in ast.walk(f.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(x, n.value) for x in n.targets]
                elif isinstance(n, (ast.AnnAssign, ast.NamedExpr, ast.AugAssign)) and n.value is not None:
                    pairs = [(n.target, n.value)]
                elif isinstance(n, ast.For):
                    pairs = [(n.target, n.iter)]
                for x, v in pairs:
                    if self.user(v, T, f):
                        T |= {m.id for m in ast.walk(x) if isinstance(m, ast.Name) and not isinstance(
                            getattr(x, "value", None), ast.Name)} if not isinstance(
                                x, (ast.Attribute, ast.Subscript)) else set()
            if len(T) == n0:
                return T

    # -- places

    def function(self, f, tainted, safe=False):
        key = ("fn", f.qual, frozenset(tainted), safe)
        if key in self.seen:
            return
        self.seen[key] = True
        T = self.locals_of(f, tainted)
        for s in f.node.body:
            self.visit(s, T, f, safe)

    def visit(self, n, T, f, safe):
        if isinstance(n, ast.Try):
            inner = safe or handles_all(n)
            for s in n.body:
                self.visit(s, T, f, inner)
            for s in (*n.handlers, *n.orelse, *n.finalbody):
                self.visit(s, T, f, safe)
            return
        if isinstance(n, ast.With):
            inner = safe or suppresses(n)
            for i in n.items:
                self.visit(i, T, f, safe)
            for s in n.body:
                self.visit(s, T, f, inner)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            T = self.comp(n, T, f)
        what = None
        if isinstance(n, ast.FormattedValue):
            self.places += 1
            if self.user(n.value, T, f):
                what = ast.unparse(n.value)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(
                n.left, (ast.Constant, ast.JoinedStr)):
            self.places += 1
            if self.user(n.right, T, f):
                what = ast.unparse(n.right)
        elif isinstance(n, ast.Call):
            fmt = isinstance(n.func, ast.Name) and n.func.id in FORMATTERS or isinstance(
                n.func, ast.Attribute) and n.func.attr in ("format", "join") and isinstance(
                    n.func.value, ast.Constant)
            if fmt or isinstance(n.func, ast.Attribute) and n.func.attr in ("__str__", "__repr__"):
                self.places += 1
                bad = [a for a in (*n.args, *[k.value for k in n.keywords]) if self.user(a, T, f)]
                bad = bad or ([n.func.value] if isinstance(n.func, ast.Attribute) and n.func.attr.startswith("__")
                              and self.user(n.func.value, T, f) else [])
                what = ast.unparse(bad[0]) if bad else None
            # a function handed on together with a value: helper(value, repr)
            elif any(isinstance(a, ast.Name) and a.id in FORMATTERS for a in n.args):
                pass
            g, t = self.callee(n, T, f)
            if g is not None and t:
                self.function(g, t, safe)
        if what is not None and not safe:
            self.hits.append((f, n, what))
        for c in ast.iter_child_nodes(n):
            self.visit(c, T, f, safe)
