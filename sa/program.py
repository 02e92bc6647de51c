"""Whole-program model of the package under analysis: modules, classes, functions.

Everything is read from the source text of /repo/src/psygnal on every run; nothing of
the package is imported or executed.
"""

from __future__ import annotations

import ast
import builtins
import collections.abc
import os
from pathlib import Path


class AnalysisBroken(Exception):
    """An anchor the analysis needs has vanished (or nothing could be parsed)."""


REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PKG = "psygnal"


class Func:
    __slots__ = ("qual", "node", "module", "cls", "kind", "decorators", "is_gen", "name",
                 "is_ctx", "is_setter")

    def __init__(self, qual, node, module, cls):
        self.qual = qual
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = "func"
        self.is_ctx = False
        self.is_setter = False
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            n = dotted(d.func if isinstance(d, ast.Call) else d) or "?"
            self.decorators.append(n)
            last = n.split(".")[-1]
            if last == "property" or last == "cached_property":
                self.kind = "property"
            elif last == "staticmethod":
                self.kind = "static"
            elif last == "classmethod":
                self.kind = "class"
            elif last == "contextmanager":
                self.is_ctx = True
            elif last in ("setter", "deleter", "getter"):
                self.is_setter = last
        self.is_gen = contains_yield(node)

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.module = module
        self.bases = []          # qualnames or ext dotted names
        self.methods = {}        # name -> Func (last definition wins)
        self.setters = {}        # property name -> Func
        self.attrs = {}          # name -> ast expr of class-level value (or None)
        self.mro = []            # list of Class | str

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, rel):
        self.name = name
        self.path = path
        self.tree = tree
        self.rel = rel
        self.names = {}     # global name -> ('cls',q)|('fn',q)|('import',dotted)|('assign',expr)
        self.is_pkg = path.name == "__init__.py"


def abc_lacks(base, name):
    """Is base an abstract class of the standard library that says nothing about name?"""
    mod, _, n = base.rpartition(".")
    k = getattr(collections.abc, n, None) if mod in ("collections.abc", "typing") else None
    return k is not None and not any(name in vars(c) for c in k.__mro__ if c is not object)


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return None if b is None else f"{b}.{node.attr}"
    return None


def contains_yield(node):
    """Does this function body (not nested functions) contain a yield?"""
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def static_test(test, flags):
    """Evaluate a module level `if` test whose outcome is fixed for the configuration."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = static_test(test.operand, flags)
        return None if r is None else not r
    d = dotted(test)
    if d is not None:
        return flags.get(d.split(".")[-1])
    return None


FLAGS = {"TYPE_CHECKING": False, "PYDANTIC_V1": False}


class Program:
    def __init__(self, repo=None, flags=None):
        self.repo = Path(repo or REPO)
        self.flags = dict(FLAGS if flags is None else flags)
        self.src = self.repo / "src" / PKG
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.n_files = 0
        files = sorted(self.src.rglob("*.py"))
        if not files:
            raise AnalysisBroken(f"no source files under {self.src}")
        for f in files:
            rel = f.relative_to(self.repo / "src").with_suffix("")
            parts = list(rel.parts)
            if not all(p.isidentifier() for p in parts):
                continue
            if parts[-1] == "__init__":
                parts = parts[:-1]
            name = ".".join(parts)
            try:
                tree = ast.parse(f.read_text(encoding="utf-8"), str(f))
            except SyntaxError as e:  # pragma: no cover
                raise AnalysisBroken(f"{f}: {e}") from e
            m = Module(name, f, tree, str(f.relative_to(self.repo)))
            self.modules[name] = m
            self.n_files += 1
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        for c in self.classes.values():
            self._link(c)
        for c in self.classes.values():
            c.mro = self._mro(c)
        self._stores()

    # -------------------------------------------------------------- collection

    def _collect(self, m, body, type_checking=False):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{m.name}.{n.name}", n, m, None)
                if any(d.split(".")[-1] == "overload" for d in f.decorators):
                    continue
                m.names[n.name] = ("fn", f.qual)
                self.funcs[f.qual] = f
            elif isinstance(n, ast.ClassDef):
                self._collect_class(m, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names.setdefault(a.asname, ("import", a.name))
                    else:
                        top = a.name.split(".")[0]
                        m.names.setdefault(top, ("import", top))
            elif isinstance(n, ast.ImportFrom):
                base = self._abs_import(m, n)
                for a in n.names:
                    nm = a.asname or a.name
                    if type_checking and nm in m.names:
                        continue
                    m.names[nm] = ("import", f"{base}.{a.name}")
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._bind_target(m, t, n.value)
            elif isinstance(n, ast.AnnAssign):
                if n.value is not None and isinstance(n.target, ast.Name):
                    m.names[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.If):
                r = static_test(n.test, self.flags)
                if dotted(n.test) and dotted(n.test).endswith("TYPE_CHECKING"):
                    # names imported for typing only: still useful for resolution
                    self._collect(m, n.body, True)
                    self._collect(m, n.orelse)
                elif r is True:
                    self._collect(m, n.body)
                elif r is False:
                    self._collect(m, n.orelse)
                else:
                    self._collect(m, n.orelse)
                    self._collect(m, n.body)
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    self._collect(m, h.body)
                self._collect(m, n.body)
                self._collect(m, n.orelse)
                self._collect(m, n.finalbody)
            elif isinstance(n, ast.With):
                self._collect(m, n.body)

    def _bind_target(self, m, t, value):
        if isinstance(t, ast.Name):
            m.names[t.id] = ("assign", value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                        m.names[e.id] = ("assign", value.elts[i])
                    else:
                        m.names[e.id] = ("assign", None)

    def _abs_import(self, m, n):
        if not n.level:
            return n.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if n.level > 1:
            parts = parts[: len(parts) - (n.level - 1)]
        if n.module:
            parts = parts + n.module.split(".")
        return ".".join(parts)

    def _collect_class(self, m, node, prefix=None):
        q = f"{m.name}.{prefix + '.' if prefix else ''}{node.name}"
        c = Class(q, node, m)
        if prefix is None:
            m.names[node.name] = ("cls", q)
        self.classes[q] = c
        self._class_body(m, c, node.body)

    def _class_body(self, m, c, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{c.qual}.{n.name}", n, m, c)
                if any(d.split(".")[-1] == "overload" for d in f.decorators):
                    continue
                if f.is_setter:
                    if f.is_setter == "setter":
                        f.qual = f.qual + "#setter"
                        c.setters[n.name] = f
                        self.funcs[f.qual] = f
                    continue
                c.methods[n.name] = f
                self.funcs[f.qual] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
                        c.methods.pop(t.id, None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if n.value is not None:
                    c.attrs[n.target.id] = n.value
            elif isinstance(n, ast.ClassDef):
                self._collect_class(m, n, prefix=c.qual[len(m.name) + 1:])
            elif isinstance(n, ast.If):
                r = static_test(n.test, self.flags)
                if r is True:
                    self._class_body(m, c, n.body)
                elif r is False:
                    self._class_body(m, c, n.orelse)
                else:
                    self._class_body(m, c, n.orelse)
                    self._class_body(m, c, n.body)
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    self._class_body(m, c, h.body)
                self._class_body(m, c, n.body)

    def _link(self, c):
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            d = dotted(b)
            if d is None:
                c.bases.append("?")
                continue
            r = self.resolve_dotted(c.module, d)
            if r and r[0] == "cls":
                c.bases.append(r[1])
            elif r and r[0] == "ext":
                c.bases.append(r[1])
            else:
                c.bases.append(d)

    def _mro(self, c, seen=()):
        if c.qual in seen:
            return [c]
        seqs = []
        for b in c.bases:
            if b in self.classes:
                seqs.append(list(self._mro(self.classes[b], (*seen, c.qual))))
            else:
                seqs.append([b])
        seqs.append([self.classes.get(b, b) for b in c.bases])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    # -------------------------------------------------------------- resolution

    def resolve_name(self, m, name, _seen=None):
        """Resolve a global name of module m to a symbol tuple, or None."""
        seen = _seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.names:
            kind, v = m.names[name]
            if kind in ("cls", "fn"):
                return (kind, v)
            if kind == "import":
                return self.resolve_abs(v, seen)
            if kind == "assign":
                return ("glob", f"{m.name}.{name}", v, m)
        if hasattr(builtins, name):
            return ("ext", f"builtins.{name}")
        if f"{m.name}.{name}" in self.modules:
            return ("mod", f"{m.name}.{name}")
        return None

    def resolve_abs(self, d, seen=None):
        if d in self.modules:
            return ("mod", d)
        parts = d.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                r = self.resolve_name(self.modules[mod], parts[i], seen)
                for p in parts[i + 1:]:
                    if r is None:
                        return None
                    if r[0] == "ext":
                        r = ("ext", f"{r[1]}.{p}")
                    elif r[0] == "cls" and f"{r[1]}.{p}" in self.classes:
                        r = ("cls", f"{r[1]}.{p}")
                    else:
                        return None
                if r is None and f"{mod}.{parts[i]}" not in self.modules:
                    # lazy module attribute (module level __getattr__)
                    for c in self.classes.values():
                        if c.name == parts[i] and c.qual.startswith(mod):
                            return ("cls", c.qual)
                return r
        if parts[0] == PKG:
            return None
        return ("ext", d)

    def resolve_dotted(self, m, d):
        parts = d.split(".")
        r = self.resolve_name(m, parts[0])
        for p in parts[1:]:
            if r is None:
                return None
            if r[0] == "ext":
                r = ("ext", f"{r[1]}.{p}")
            elif r[0] == "mod":
                r = self.resolve_name(self.modules[r[1]], p)
            elif r[0] == "cls" and f"{r[1]}.{p}" in self.classes:
                r = ("cls", f"{r[1]}.{p}")
            else:
                return None
        return r

    def lookup(self, cls, name, after=None):
        """Find `name` along the MRO: ('method',Func)|('attr',expr,Class)|('extbase',b)|None."""
        mro = cls.mro
        if after is not None:
            i = next((k for k, c in enumerate(mro) if c is after), -1)
            mro = mro[i + 1:]
        for c in mro:
            if isinstance(c, str):
                if c.split(".")[-1] in ("object", "Generic", "Protocol"):
                    continue
                if abc_lacks(c, name):
                    continue
                return ("extbase", c)
            if name in c.methods:
                return ("method", c.methods[name], c)
            if name in c.attrs:
                return ("attr", c.attrs[name], c)
        return None

    def lookup_setter(self, cls, name):
        for c in cls.mro:
            if isinstance(c, str):
                continue
            if name in c.setters:
                return c.setters[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def is_subclass(self, q, target):
        """Is repo class q a subclass of target (repo qual or ext dotted)?  None = unknown."""
        if q == target:
            return True
        c = self.classes.get(q)
        if c is None:
            return None
        names = [x.qual if isinstance(x, Class) else x for x in c.mro]
        if target in names:
            return True
        if any(isinstance(x, str) and x.split(".")[-1] == target.split(".")[-1] for x in c.mro):
            return True
        if target in self.classes:
            return False
        # external target: unknown if there are external bases
        if any(isinstance(x, str) and x.split(".")[-1] not in ("object", "Generic") for x in c.mro):
            return None
        return target in ("builtins.object",)

    def client(self, text):
        """Add a small client of the package (analysed, never run); -> its functions by name."""
        name = f"{PKG}.client{len(self.modules)}"
        m = Module(name, Path(f"/client{len(self.modules)}.py"), ast.parse(text), "<client>")
        self.modules[name] = m
        self._collect(m, m.tree.body)
        for c in self.classes.values():
            if c.module is m:
                self._link(c)
                c.mro = self._mro(c)
        return {f.name: f for f in self.funcs.values() if f.module is m and f.cls is None}

    def stdlib(self, name, text):
        """A function of the standard library, from its stand-in source."""
        known = self.__dict__.setdefault("_stdlib", {})
        if name not in known:
            known[name] = self.client(text)[name.split(".")[-1]]
        return known[name]

    def find_class(self, name):
        """Public anchor: find a class by its (unique) short name."""
        hits = [c for c in self.classes.values() if c.name == name]
        if not hits:
            raise AnalysisBroken(f"anchor vanished: class {name}")
        return hits[0]

    def find_func(self, name):
        hits = [f for f in self.funcs.values() if f.cls is None and f.name == name]
        if not hits:
            raise AnalysisBroken(f"anchor vanished: function {name}")
        return hits[0]

    def method(self, cls, name):
        r = self.lookup(cls, name)
        if not r or r[0] != "method":
            raise AnalysisBroken(f"anchor vanished: {cls.name}.{name}")
        return r[1]

    def subclasses(self, cls):
        return [c for c in self.classes.values() if c is not cls and cls in c.mro]

    # -------------------------------------------------------------- who stores what

    def _stores(self):
        """attribute name -> list of (func qual, node) of every attribute store."""
        self.attr_stores = {}
        for f, node in self.iter_functions():
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.attr_stores.setdefault(n.attr, []).append((f, n))
                elif (isinstance(n, ast.Call) and dotted(n.func) in
                      ("setattr", "object.__setattr__", "delattr") and len(n.args) >= 2):
                    a = n.args[1]
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        self.attr_stores.setdefault(a.value, []).append((f, n))
        ctor = ("__init__", "__setstate__", "__new__", "__post_init__")
        self.nonfinal = {
            a for a, ss in self.attr_stores.items()
            if any(q.split(".")[-1] not in ctor for q, _ in ss)
        }
        # a constructor helper: private method only called (as self.x()) from constructors
        callers = {}
        for q, node in self.iter_functions():
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    callers.setdefault(n.attr, set()).add(q.split(".")[-1])
        for a in list(self.nonfinal):
            ok = True
            for q, _ in self.attr_stores[a]:
                nm = q.split(".")[-1]
                if nm in ctor:
                    continue
                if nm.startswith("_") and callers.get(nm) and callers[nm] <= set(ctor):
                    continue
                ok = False
            if ok:
                self.nonfinal.discard(a)

    def iter_functions(self):
        """Yield (qual, node) for every top-level function and method (nested included in body)."""
        for f in self.funcs.values():
            yield f.qual, f.node
