"""Path-sensitive, interprocedural, flow analysis over the syntax tree.

A function is walked once per feasible combination of branch outcomes; values are
provenance terms (see terms.py).  Repo functions, methods, properties, context managers
and generators are followed through calls; loops are summarised by one generic iteration
after a fixpoint over what the body may write.  The result of a walk is a set of `Path`s:
branch facts, ordered effects (calls, stores, lock operations, loops) and the exit.
No code of the package is executed and no solver is used.
"""

from __future__ import annotations

import ast
import builtins
import types

from .conds import Facts, normalise
from .program import PKG, Class, Func, Program, dotted
from .terms import (C, FALSE, NONE, TRUE, cval, ext, is_const, show, subst, tup, walk)

PURE = {
    "isinstance", "issubclass", "len", "hasattr", "callable", "id", "type", "super", "repr",
    "str", "int", "bool", "float", "max", "min", "abs", "print", "hex", "vars", "dir",
    "object", "range", "cast", "current_thread", "main_thread", "RLock", "Lock",
    "Condition", "deque", "Queue", "MappingProxyType", "getattr", "partial", "signature",
    "warn", "Timer", "frozenset", "format", "chain", "iter", "NewType", "local",
    "get_origin", "get_args", "count_nonzero", "ref", "finalize", "isclass", "defaultdict",
    "tuple", "list", "set", "dict", "sorted", "reversed", "enumerate", "zip", "sum",
    "suppress", "fromkeys", "ismethod", "Parameter", "Signature", "catch_warnings",
    "simplefilter", "WeakValueDictionary", "WeakKeyDictionary", "WeakSet", "islice",
}
MUTATORS = {
    "append", "appendleft", "pop", "popleft", "popitem", "clear", "insert", "remove",
    "extend", "add", "discard", "update", "setdefault", "reverse", "sort", "put",
    "put_nowait", "rotate", "difference_update", "intersection_update",
    "symmetric_difference_update", "get_nowait",
}
CONTAINERS = {"list", "deque", "dict", "set", "tuple", "defaultdict", "Queue", "frozenset",
              "MappingProxyType", "Mapping", "MutableMapping", "SimpleQueue", "OrderedDict",
              "WeakValueDictionary", "WeakKeyDictionary", "Iterable", "Iterator", "Sequence",
              "str", "Container"}


def as_slice(t):
    """The slice a term with constant bounds stands for, else None."""
    if all(x == NONE or (is_const(x) and isinstance(cval(x), int)) for x in t[1:]):
        return slice(*[None if x == NONE else cval(x) for x in t[1:]])
    return None


def ordered(el, n, back):
    """The elements as sorted() or reversed() orders them (None: not decided)."""
    if el is None:
        return None
    if n == "reversed":
        return el[::-1]
    keys = [e[1] if e[0] == "tuple" else (e,) for e in el]
    if len({len(k) for k in keys}) > 1:
        return None
    for i in range(len(keys[0]) if keys else 0):
        col = [k[i] for k in keys]
        if len(set(col)) > 1 and not any(all(is_const(c) and type(cval(c)) is t for c in col) for t in (int, str)):
            return None
    val = [tuple(cval(c) if is_const(c) and type(cval(c)) in (int, str) else 0 for c in k) for k in keys]
    return [e for _, e in sorted(zip(val, el), key=lambda z: z[0], reverse=back)]


STRFOLD = {"lower", "upper", "strip", "startswith", "endswith", "title", "replace"}
# builtin classes whose relations are known
BUILTINS = {"builtins." + c.__name__: c for c in (
    int, bool, float, complex, str, bytes, list, tuple, set, frozenset, dict, object, type)}
LOCKS = {"RLock", "Lock", "Condition", "Semaphore", "_RLock"}
RAISES = {"remove": "ValueError", "index": "ValueError", "popleft": "IndexError",
          "pop": None, "popitem": "KeyError"}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
          ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^",
          ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
          ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
          ast.NotIn: "not in"}


class Raised:
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc


class Overflow(Exception):
    """More paths than the cap: the run is incomplete."""


class Ev:
    """One effect on a path."""

    __slots__ = ("kind", "name", "recv", "fn", "args", "kw", "res", "node", "func", "locks",
                 "epoch", "extra", "nfacts")

    def __init__(self, kind, name="", recv=None, fn=None, args=(), kw=(), res=None, node=None,
                 func=None, locks=(), epoch=0, extra=None, nfacts=0):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.fn = fn
        self.args = tuple(args)
        self.kw = tuple(kw)
        self.res = res
        self.node = node
        self.func = func
        self.locks = locks
        self.epoch = epoch
        self.extra = extra
        self.nfacts = nfacts

    def kwd(self, name, default=None):
        for n, v in self.kw:
            if n == name:
                return v
        return default

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None:
            return self.kwd(name, default)
        return default

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def __repr__(self):
        if self.kind == "loop":
            ex = self.extra
            inner = " || ".join(
                "; ".join(map(repr, b.events)) + f" -> {b.kind}" for b in ex["bodies"])
            return f"LOOP[{show(self.recv) if self.recv else '?'}]{{{inner}}}{'(partial)' if ex.get('partial') else ''}"
        a = ", ".join([show(x) for x in self.args] + [f"{n}={show(v)}" for n, v in self.kw])
        r = f"{show(self.recv)}." if self.recv else ""
        return f"{self.kind}:{r}{self.name}({a})"


#: methods of an unknown base class after which the contents of the object may differ
SUPER_MUTATES = {"__setitem__", "__delitem__", "__setattr__", "__delattr__", "update", "clear",
                 "append", "insert", "pop", "remove", "extend", "setdefault", "popitem"}


class Path:
    __slots__ = ("kind", "val", "facts", "events", "st", "eng", "tag")

    def __init__(self, kind, val, facts, events, st):
        self.eng = None        # the engine that produced the path (closures, types)
        self.tag = None        # free for rules
        self.kind = kind       # ret | raise | next | continue | break
        self.val = val
        self.facts = facts     # tuple of (atom, polarity, node)
        self.events = events
        self.st = st

    def flat(self, partial=True):
        """Events in order; loop events are kept as they are."""
        return self.events

    def __repr__(self):
        f = " & ".join(("" if p else "not ") + show(a) for a, p, _ in self.facts)
        return (f"[{f}] " + "; ".join(map(repr, self.events)) + f" => {self.kind} "
                + (show(self.val) if self.val else ""))


class State:
    __slots__ = ("frames", "heap", "cver", "epoch", "facts", "events", "locks", "counters",
                 "excs", "pending", "stack", "trys", "uniq", "sel")

    def __init__(self, prog):
        self.frames = {}
        self.heap = {}
        self.cver = {}
        self.epoch = 0
        self.facts = Facts(prog)
        self.events = []
        self.locks = ()
        self.counters = {}
        self.excs = ()
        self.pending = ()
        self.stack = ()
        self.trys = 0
        self.uniq = 0
        self.sel = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.cver = dict(self.cver)
        s.epoch = self.epoch
        s.facts = self.facts.copy()
        s.events = list(self.events)
        s.locks = self.locks
        s.counters = dict(self.counters)
        s.excs = self.excs
        s.pending = self.pending
        s.stack = self.stack
        s.trys = self.trys
        s.uniq = self.uniq
        s.sel = dict(self.sel)
        return s

    def uid(self, node=None, tag=""):
        key = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag)
        n = self.counters.get(key, 0)
        self.counters[key] = n + 1
        return f"{tag}{key[0]}.{key[1]}#{n}"


class Ctx:
    """Static context of the code being walked."""

    __slots__ = ("func", "module", "cls", "fid", "selft", "yh", "parent", "names")

    def __init__(self, func, module, cls, fid, selft=None, yh=None, parent=None):
        self.func = func        # qualname for reports
        self.module = module
        self.cls = cls          # defining class (for super())
        self.fid = fid
        self.selft = selft
        self.yh = yh
        self.parent = parent    # enclosing Ctx for closures
        self.names = None


class Config:
    def __init__(self, opaque=(), opaque_classes=None, raises=False, cap=3000, depth=14,
                 preserve=(), inline_types=(), user_attrs=False, only=None, selfcls=None,
                 assume=(), recurse=1, nones=()):
        self.nones = nones              # class attributes taken to be None
        self.recurse = recurse          # how often a function may be on the call stack
        self.opaque = opaque            # collection of quals / names, or predicate
        self.opaque_classes = opaque_classes
        self.raises = raises
        self.cap = cap
        self.depth = depth
        self.preserve = set(preserve)   # field names user code is assumed to leave alone
        self.inline_types = set(inline_types)  # class quals whose methods inline on typed terms
        self.assume = assume

    def is_opaque(self, f: Func):
        o = self.opaque
        if callable(o):
            return o(f)
        return f.qual in o or f.name in o


#: longest sequence of known contents iterated element by element
UNROLL = 32


def exposed(t):
    """Sub-terms that whoever gets the value can reach: not the owner of a field."""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x and x[0] == "attr" and len(x) > 2 and isinstance(x[2], str):
            continue
        if x and isinstance(x[0], str):
            yield x
        stack.extend(y for y in x if isinstance(y, tuple))


def merged(ent):
    """Entries of a dict, later ones replacing earlier ones with the same constant key."""
    if not all(x[0] == "item" and is_const(x[1][1][0]) for x in ent):
        return ent
    return list({x[1][1][0]: x for x in ent}.values())


def natural_number(t):
    """Loop indices, lengths and what list.index() gives are integers, never negative."""
    return t[0] == "idx" or t[0] == "op" and t[1] == "len" or t[0] == "call" and t[1][0] == "attr" \
        and t[1][2] in ("index", "count") and len(t[2]) == 1


# functions of the standard library in terms of what they read
STDLIB = {"dataclasses.fields": """import dataclasses
def fields(class_or_instance):
    for f in class_or_instance.__dataclass_fields__.values():
        if f._field_type is dataclasses._FIELD:
            yield f
""", "builtins.map": """def map(function, items):
    for item in items:
        yield function(item)
""", "builtins.filter": """def filter(function, items):
    for item in items:
        if function(item):
            yield item
"""}
TWO = {"builtins.map", "builtins.filter"}  # (only calls with one iterable are followed)


class Engine:
    def __init__(self, prog: Program, cfg: Config | None = None):
        self.p = prog
        self.cfg = cfg or Config()
        self.closures = {}
        self.nstates = 0
        self.inlined = set()
        self.opaque_calls = 0
        self.incomplete = False
        self._ctor_cache = {}
        self._ftypes = {}
        self.globcls = {}

    # ------------------------------------------------------------------ entry

    def run(self, func: Func, selfcls: Class | None = None, selfterm=None, args=None,
            setup=None):
        st = State(self.p)
        self.nstates = 0
        selft = selfterm
        node = func.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        cls = func.cls
        if cls is not None and func.kind != "static" and names:
            if func.kind == "class":
                selft = selft or ("cls", (selfcls or cls).qual)
            else:
                selft = selft or ("param", "self")
            env[names[0]] = selft
            names = names[1:]
        for n in names:
            env[n] = ("param", n)
        for x in a.kwonlyargs:
            env[x.arg] = ("param", x.arg)
        if a.vararg:
            env[a.vararg.arg] = ("param", "*" + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ("param", "**" + a.kwarg.arg)
        if args:
            env.update(args)
        fid = ("f", func.qual, 0)
        st.frames[fid] = env
        self.selfcls = selfcls or cls
        self.types = {}
        if selft is not None and selft[0] == "param":
            self.types[selft] = (self.selfcls.qual, ())
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and env.get(x.arg) == ("param", x.arg):
                t = self.anno_type(x.annotation, func.module)
                if t:
                    self.types[("param", x.arg)] = t
        ctx = Ctx(func.qual, func.module, cls, fid, selft)
        self.rootctx = ctx
        st.stack = (func.qual,)
        if setup:
            setup(st, self)
        self.inlined.add(func.qual)
        res = []
        try:
            outs = self.block(node.body, st, ctx)
        except Overflow:
            self.incomplete = True
            outs = []
        for s, k, v in outs:
            if k == "next":
                k, v = "ret", NONE
            res.append(Path(k, v, s.facts.order, s.events, s))
        return res

    def apply(self, path, args, kw=(), fn=None):
        """Continue a finished path by calling its result (or `fn`); -> paths."""
        st = path.st.fork()
        out = []
        for s, v in self.call(fn or path.val, list(args), list(kw), st, self.rootctx, None):
            if type(v) is Raised:
                out.append(Path("raise", v.exc, s.facts.order, s.events, s))
            else:
                out.append(Path("ret", v, s.facts.order, s.events, s))
        return out

    # ------------------------------------------------------------------ types

    def anno_type(self, node, module):
        """annotation syntax -> (class qual or short external name, args) or None."""
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    node = ast.parse(node.value, mode="eval").body
                except SyntaxError:
                    return None
            else:
                return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            ts = [self.anno_type(x, module) for x in (node.left, node.right)
                  if not (isinstance(x, ast.Constant) and x.value is None)]
            return ts[0] if len(ts) == 1 else None
        args = ()
        if isinstance(node, ast.Subscript):
            d = dotted(node.value)
            sl = node.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            last = (d or "").split(".")[-1]
            if last == "Optional":
                return self.anno_type(sl, module)
            if last == "Union":
                elts = [x for x in elts if not (isinstance(x, ast.Constant) and x.value is None)]
                return self.anno_type(elts[0], module) if len(elts) == 1 else None
            if last in ("ClassVar", "Final", "Annotated"):
                return self.anno_type(elts[0], module)
            if last == "Literal":
                return None
            args = tuple(self.anno_type(x, module) for x in elts)
            node = node.value
        d = dotted(node)
        if d is None:
            return None
        r = self.p.resolve_dotted(module, d)
        if r and r[0] == "cls":
            return (r[1], args)
        nm = (r[1] if r and r[0] == "ext" else d).split(".")[-1]
        nm = {"List": "list", "Dict": "dict", "Set": "set", "Tuple": "tuple"}.get(nm, nm)
        if nm == "Any" or nm == "object":
            return None
        if r and r[0] == "glob":
            return None
        return (nm, args)

    def field_types(self, cls: Class):
        if cls.qual in self._ftypes:
            return self._ftypes[cls.qual]
        out = {}
        self._ftypes[cls.qual] = out
        for c in reversed(cls.mro):
            if isinstance(c, str):
                continue
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    t = self.anno_type(n.annotation, c.module)
                    if t:
                        out[n.target.id] = t
            for name, v in c.attrs.items():
                if name not in out and v is not None:
                    t = self.expr_type(v, c.module)
                    if t:
                        out[name] = t
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    tgt = val = ann = None
                    if isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name)):
                        continue
                    t = self.anno_type(ann, c.module) if ann is not None else None
                    if t is None and val is not None:
                        t = self.expr_type(val, c.module, cls)
                    if t is None and isinstance(val, ast.Name) and f.name == "__init__":
                        for x in f.node.args.args + f.node.args.kwonlyargs:
                            if x.arg == val.id and x.annotation is not None:
                                t = self.anno_type(x.annotation, c.module)
                    if t and (tgt.attr not in out or f.name in ("__init__", "__setstate__")):
                        if tgt.attr in out and out[tgt.attr][0] == t[0] and not t[1]:
                            continue
                        out[tgt.attr] = t
        return out

    def expr_type(self, v, module, cls=None):
        if isinstance(v, ast.Call):
            d = dotted(v.func)
            if d:
                if d in ("cast", "typing.cast") and v.args:
                    return self.anno_type(v.args[0], module)
                r = self.p.resolve_dotted(module, d)
                if r and r[0] == "cls":
                    return (r[1], ())
                if r and r[0] == "ext":
                    n = r[1].split(".")[-1]
                    if n in CONTAINERS | LOCKS | {"Timer", "QTimer"}:
                        return (n, ())
                if d.startswith("self.") and cls is not None:
                    m = self.p.lookup(cls, d[5:])
                    if m and m[0] == "method":
                        return self.anno_type(m[1].node.returns, m[1].module)
        if isinstance(v, (ast.List, ast.ListComp)):
            return ("list", ())
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return ("dict", ())
        if isinstance(v, (ast.Set, ast.SetComp)):
            return ("set", ())
        if isinstance(v, ast.Tuple):
            return ("tuple", ())
        return None

    def type_of(self, t, st=None):
        """(class qual | short name, args) of a term, or None."""
        k = t[0]
        if k == "obj":
            return (t[2], ())
        if k == "nt":
            return (t[1], ())
        if k in ("list", "dict", "set"):
            return (k if k != "list" or t[1][0] != "g" else "list", ())
        if k == "tuple":
            return ("tuple", ())
        if k == "const":
            return (t[1], ())
        if k == "new":
            return (t[1].split(".")[-1], ())
        if t in self.types:
            return self.types[t]
        if st is not None:
            for (a, p) in st.facts.d.items():
                if p and a[1] == "isinstance" and a[2] == t and a[3][0] == "cls":
                    return (a[3][1], ())
        if k == "attr":
            bt = self.type_of(t[1], st)
            if bt and bt[0] in self.p.classes:
                c = self.p.classes[bt[0]]
                ft = self.field_types(c).get(t[2])
                if ft:
                    return ft
                if self.is_group(c):
                    return (self.signal_instance, ()) if self.signal_instance else None
            if t[1][0] == "cls" and t[1][1] in self.p.classes:
                return self.field_types(self.p.classes[t[1][1]]).get(t[2])
        if k == "glob":
            m, n = t[1].rsplit(".", 1)
            mod = self.p.modules.get(m)
            if mod:
                for s in mod.tree.body:
                    if isinstance(s, ast.AnnAssign) and dotted(s.target) == n:
                        at = self.anno_type(s.annotation, mod)
                        if at:
                            return at
                    if (isinstance(s, ast.Assign) and dotted(s.targets[0]) == n):
                        return self.expr_type(s.value, mod)
        if k in ("elem", "val"):
            bt = self.type_of(t[1], st)
            if bt and bt[1]:
                if k == "val":
                    return bt[1][-1]
                if bt[0] in ("list", "deque", "set", "tuple", "Iterable", "Sequence",
                             "Iterator", "Queue"):
                    return bt[1][0]
        if k == "item":
            bt = self.type_of(t[1], st)
            if bt:
                if bt[0] in self.p.classes and self.is_group(self.p.classes[bt[0]]):
                    return (self.signal_instance, ())
                if bt[1] and bt[0] in ("dict", "Mapping", "MappingProxyType", "defaultdict"):
                    return bt[1][-1]
                if bt[1] and bt[0] in ("list", "deque", "Sequence"):
                    return bt[1][0]
        if k == "call":
            f = t[1]
            fq = None
            if f[0] == "fn":
                fq = f[1]
            elif f[0] == "bound":
                fq = f[2]
            elif f[0] == "attr":
                bt = self.type_of(f[1], st)
                if bt and bt[0] in self.p.classes:
                    r = self.p.lookup(self.p.classes[bt[0]], f[2])
                    if r and r[0] == "method":
                        fq = r[1].qual
            elif f[0] == "type":
                return self.type_of(f[1], st)
            if fq and fq in self.p.funcs:
                fu = self.p.funcs[fq]
                return self.anno_type(fu.node.returns, fu.module)
            if f[0] == "ext":
                n = f[1].split(".")[-1]
                if n in CONTAINERS:
                    return (n, ())
                if n == "sorted":
                    return ("list", ())
        if k == "type":
            return ("type", ())
        return None

    @property
    def signal_instance(self):
        for q, c in self.p.classes.items():
            if c.name == "SignalInstance":
                return q
        return None

    def is_group(self, c):
        return any(not isinstance(x, str) and x.name == "SignalGroup" for x in c.mro)

    def is_signal_inst(self, q):
        c = self.p.classes.get(q)
        return bool(c) and any(not isinstance(x, str) and x.name == "SignalInstance"
                               for x in c.mro)

    def cls_of(self, t, st=None):
        ty = self.type_of(t, st)
        return self.p.classes.get(ty[0]) if ty else None

    def exact(self, t):
        """Is the class of t known exactly enough to follow its methods?"""
        if t[0] in ("obj", "nt"):
            return True
        ty = self.types.get(t)
        if ty and t == ("param", "self"):
            return True
        return False

    # ------------------------------------------------------------------ state helpers

    def ver(self, t, st):
        """Version of the contents of container t."""
        c = st.cver.get(t, 0)
        if t[0] in ("attr", "glob", "item", "elem", "val", "obj", "call") or t in self.types:
            return (st.epoch, c)
        return (0, c)

    def mutate(self, t, st):
        st.uniq += 1
        st.cver[t] = st.uniq

    def bump(self, st):
        """User code may have run: forget what may have changed."""
        st.epoch += 1
        drop = []
        for (b, n) in st.heap:
            if n.startswith("$") or n in self.cfg.preserve:
                continue
            if n not in self.p.nonfinal:
                continue
            if b[0] == "obj" and (b, "$escaped") not in st.heap:
                continue
            drop.append((b, n))
        for k in drop:
            del st.heap[k]

    def emit(self, st, ev):
        ev.locks = st.locks
        ev.epoch = st.epoch
        ev.nfacts = len(st.facts.order)
        st.events.append(ev)

    def check_cap(self, n=1):
        self.nstates += n
        if self.nstates > self.cfg.cap:
            raise Overflow

    def assume(self, st, term, want, node=None):
        """Constrain st by truth(term)==want; returns False if contradictory."""
        atom, pol = normalise(term)
        if atom is True or atom is False:
            return (atom == pol) == want if False else ((atom if pol else not atom) == want)
        w = want if pol else not want
        d = st.facts.decide(atom)
        if d is not None:
            return d == w
        st.facts.add(atom, w, node)
        return True

    def branch(self, st, term, node=None):
        """-> list of (state, bool)."""
        if term[0] == "op" and term[1] in ("and", "or"):
            out = []
            a, b = term[2], term[3]
            for s, r in self.branch(st, a, node):
                if r == (term[1] == "or"):
                    out.append((s, r))
                else:
                    out.extend(self.branch(s, b, node))
            return out
        if term[0] == "op" and term[1] == "not" and term[2][0] == "op" and term[2][1] in ("and", "or"):
            return [(s, not r) for s, r in self.branch(st, term[2], node)]
        if term[0] == "op" and term[1] in ("in", "not in") and term[3][0] == "tuple":
            if not any(x[0] == "star" for x in term[3][1]):
                t = None
                for x in term[3][1]:
                    e = ("op", "==", term[2], x)
                    t = e if t is None else ("op", "or", t, e)
                if t is None:
                    return [(st, term[1] == "not in")]
                return [(s, r == (term[1] == "in")) for s, r in self.branch(st, t, node)]
        if term[0] == "op" and term[1] == "isinstance" and term[3][0] == "tuple":
            t = None
            for x in term[3][1]:
                e = ("op", "isinstance", term[2], x)
                t = e if t is None else ("op", "or", t, e)
            if t is None:
                return [(st, False)]
            return self.branch(st, t, node)
        term = self.truth_term(term, st)
        atom, pol = normalise(term)
        if atom is True or atom is False:
            return [(st, atom if pol else not atom)]
        d = st.facts.decide(atom)
        if d is None:
            d = self.decide_more(atom, st)
        if d is not None:
            return [(st, d if pol else not d)]
        self.check_cap()
        s2 = st.fork()
        st.facts.add(atom, True, node)
        s2.facts.add(atom, False, node)
        return [(st, pol), (s2, not pol)]

    def decide_more(self, atom, st):
        o = atom[1]
        if o == "isinstance":
            ty = self.type_of(atom[2], st)
            cl = atom[3]
            if ty and cl[0] == "cls" and ty[0] in self.p.classes:
                if self.exact(atom[2]):
                    return self.p.is_subclass(ty[0], cl[1])
            if cl[0] == "cls" and cl[1] in self.p.classes:
                if atom[2] in self.globcls:
                    return self.p.is_subclass(self.globcls[atom[2]], cl[1])
                if atom[2][0] in ("tuple", "list", "dict", "set") or atom[2] == NONE:
                    return False
            if atom[2][0] in ("tuple", "list", "dict", "set") and cl[0] == "ext":
                n = cl[1].split(".")[-1]
                if n in ("list", "tuple", "dict", "set", "str", "int", "slice", "Signature"):
                    return n == atom[2][0]
                if cl[1].split(".")[0] in ("pydantic", "attr", "attrs", "msgspec", "numpy", "qtpy", "wrapt"):
                    return False
        if o == "isinstance" and atom[3][0] == "ext":
            n = atom[3][1].split(".")[-1]
            if n == "type" and atom[2][0] in ("cls", "obj", "tuple", "list", "dict", "set", "closure",
                                              "fn", "bound", "const"):
                return atom[2][0] == "cls"
            if atom[2][0] == "ext" and atom[2][1] in ("builtins.int", "builtins.str",
                                                      "builtins.float", "builtins.object"):
                return n in ("type", "object", "Callable", "Hashable")
            if n == "slice" and atom[2][0] == "op" and atom[2][1] in ("+", "-", "*", "%", "//"):
                return False
            if natural_number(atom[2]):
                return n in ("int", "Integral", "Number", "object", "Hashable")
            if atom[2][0] == "obj" and atom[2][2] in self.p.classes and n in (
                    "int", "str", "tuple", "list", "dict", "slice", "float", "bytes"):
                c = self.p.classes[atom[2][2]]
                return any(isinstance(m, str) and m.split(".")[-1] == n for m in c.mro)
        if o == "<":
            if natural_number(atom[2]) and is_const(atom[3]) and isinstance(cval(atom[3]), int) \
                    and cval(atom[3]) <= 0:
                return False
            if natural_number(atom[3]) and is_const(atom[2]) and isinstance(cval(atom[2]), int) \
                    and cval(atom[2]) < 0:
                return True
        if o in ("==", "is"):
            for a, b in ((atom[2], atom[3]), (atom[3], atom[2])):
                if is_const(b) and natural_number(a):
                    v = cval(b)
                    if not isinstance(v, (int, float)) or v < 0:
                        return False
                if is_const(b) and a[0] == "obj" and a[2] in self.p.classes:
                    return False
        if o == "is" and atom[3] == NONE:
            if atom[2][0] in ("new", "list", "dict", "set", "nt", "gencall", "ctxcall", "partial"):
                return False
            if atom[2][0] == "glob":
                return False
        if o in ("is", "=="):
            a, b = atom[2], atom[3]
            ids = [t[2][0] for t in (a, b) if t[0] == "call" and t[1] == ext("builtins.id") and len(t[2]) == 1]
            if o == "==" and len(ids) == 2 and all(t[0] in ("obj", "cls", "closure") for t in ids):
                return ids[0] == ids[1]  # (both alive)
            fresh = ("obj", "closure", "list", "dict", "set", "new")
            if o == "is" and (a[0] in fresh or b[0] in fresh) and a != b:
                other = b if a[0] in fresh else a
                if other[0] in ("const", "glob", "cls", "fn", "ext", "param", *fresh):
                    return False
            if o == "is" and a[0] == "glob" and is_const(b):
                return False
            if o == "is" and a[0] == "ext" and is_const(b) and a[1].startswith("builtins.") and \
                    isinstance(getattr(builtins, a[1][9:], None), type):
                return False
            if o == "is" and a[0] == "ext" and b[0] == "ext" and a != b and a[1].split(".")[0] == \
                    b[1].split(".")[0] == "builtins":
                return False
        if o == "callable" and atom[2][0] in ("fn", "bound", "closure", "cls", "partial", "ext"):
            return True
        if o == "callable" and is_const(atom[2]):
            return False
        if o == "callable" and atom[2][0] in ("tuple", "list", "dict", "set"):
            return False
        return None

    def truth_term(self, t, st):
        """Truthiness of containers depends on their current contents."""
        if t[0] == "op":
            return t
        if t[0] in ("list", "dict", "set"):
            el = st.heap.get((t, "$elts"))
            if el is not None:
                if not el:
                    return FALSE
                if any(e[0] == "item" for e in el):
                    return TRUE
            return ("op", "truthv", t, self.ver(t, st))
        if is_const(t) or t[0] in ("cls", "fn", "bound", "closure", "partial", "tuple",
                                   "exc", "mod", "type", "code"):
            return t
        if t[0] == "obj":
            c = self.p.classes.get(t[2])
            if c and any(self.p.lookup(c, m) and self.p.lookup(c, m)[0] == "method"
                         for m in ("__len__", "__bool__")):
                return ("op", "truthv", t, self.ver(t, st))
            return TRUE
        ty = self.type_of(t, st)
        if ty and (ty[0] in CONTAINERS):
            return ("op", "truthv", t, self.ver(t, st))
        if t[0] == "attr" and t[2] in self.p.nonfinal:
            return ("op", "truth", t)
        if st.cver.get(t):
            return ("op", "truthv", t, self.ver(t, st))
        if ("op", "truthv", t, self.ver(t, st)) in st.facts.d:
            return ("op", "truthv", t, self.ver(t, st))
        return ("op", "truth", t)

    # ------------------------------------------------------------------ statements

    def block(self, stmts, st, ctx):
        live = [st]
        out = []
        for n in stmts:
            nxt = []
            for s in live:
                for r in self.stmt(n, s, ctx):
                    if r[1] == "next":
                        nxt.append(r[0])
                    else:
                        out.append(r)
            live = nxt
            if not live:
                break
        out.extend((s, "next", None) for s in live)
        return out

    def stmt(self, n, st, ctx):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(st, "next", None)]
        return m(n, st, ctx)

    def lift(self, results, f):
        """results of eval -> statement outcomes; f(st, v) -> outcomes."""
        out = []
        for s, v in results:
            if type(v) is Raised:
                out.append((s, "raise", v.exc))
            else:
                out.extend(f(s, v))
        return out

    def s_Expr(self, n, st, ctx):
        if isinstance(n.value, ast.Constant):
            return [(st, "next", None)]
        return self.lift(self.ev(n.value, st, ctx), lambda s, v: [(s, "next", None)])

    def s_Pass(self, n, st, ctx):
        return [(st, "next", None)]

    def s_Import(self, n, st, ctx):
        for a in n.names:
            r = self.p.resolve_abs(a.name if a.asname else a.name.split(".")[0])
            st.frames[ctx.fid][a.asname or a.name.split(".")[0]] = self.sym(r, st)
        return [(st, "next", None)]

    def s_ImportFrom(self, n, st, ctx):
        base = self.p._abs_import(ctx.module, n)
        for a in n.names:
            r = self.p.resolve_abs(f"{base}.{a.name}")
            st.frames[ctx.fid][a.asname or a.name] = self.sym(r, st)
        return [(st, "next", None)]

    def s_FunctionDef(self, n, st, ctx):
        return self.lift(self.mk_closure(n, st, ctx),
                         lambda s, v: self.assign_name(n.name, v, s, ctx))

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, ctx):
        return self.assign_name(n.name, ("unk", "class", n.name), st, ctx)

    def s_Global(self, n, st, ctx):
        for x in n.names:
            st.frames[ctx.fid]["$global " + x] = TRUE
        return [(st, "next", None)]

    def s_Nonlocal(self, n, st, ctx):
        for x in n.names:
            st.frames[ctx.fid]["$nonlocal " + x] = TRUE
        return [(st, "next", None)]

    def s_Return(self, n, st, ctx):
        if n.value is None:
            return [(st, "ret", NONE)]
        return self.lift(self.ev(n.value, st, ctx), lambda s, v: [(s, "ret", v)])

    def s_Break(self, n, st, ctx):
        return [(st, "break", None)]

    def s_Continue(self, n, st, ctx):
        return [(st, "continue", None)]

    def s_Assert(self, n, st, ctx):
        out = []
        for s, v in self.ev_cond(n.test, st, ctx):
            if type(v) is Raised:
                out.append((s, "raise", v.exc))
            elif v:
                out.append((s, "next", None))
            else:
                out.append((s, "raise", ("exc", ext("builtins.AssertionError"), "assert")))
        return out

    def s_If(self, n, st, ctx):
        from .program import static_test
        r = static_test(n.test, self.p.flags)
        if r is True:
            return self.block(n.body, st, ctx)
        if r is False:
            return self.block(n.orelse, st, ctx)
        out = []
        for s, v in self.ev_cond(n.test, st, ctx):
            if type(v) is Raised:
                out.append((s, "raise", v.exc))
            else:
                out.extend(self.block(n.body if v else n.orelse, s, ctx))
        return out

    def s_Assign(self, n, st, ctx):
        def f(s, v):
            live = [(s, "next", None)]
            for t in n.targets:
                nxt = []
                for s1, k, x in live:
                    if k != "next":
                        nxt.append((s1, k, x))
                    else:
                        nxt.extend(self.assign(t, v, s1, ctx))
                live = nxt
            return live
        return self.lift(self.ev(n.value, st, ctx), f)

    def s_AnnAssign(self, n, st, ctx):
        if n.value is None:
            return [(st, "next", None)]
        def f(s, v):
            if isinstance(n.target, ast.Name) and v[0] not in ("const",):
                t = self.anno_type(n.annotation, ctx.module)
                if t and self.type_of(v, s) is None:
                    self.types.setdefault(v, t)
            return self.assign(n.target, v, s, ctx)
        return self.lift(self.ev(n.value, st, ctx), f)

    def s_AugAssign(self, n, st, ctx):
        op = BINOPS.get(type(n.op), "?")
        load = ast.copy_location(
            type(n.target)(**{k: getattr(n.target, k) for k in n.target._fields if k != "ctx"},
                           ctx=ast.Load()), n.target)

        def f(s, cur):
            def g(s2, v):
                ty = self.type_of(cur, s2)
                if cur[0] in ("list", "set", "dict") and (cur, "$elts") in s2.heap:
                    nm = {"+": "extend", "|": "update"}.get(op)
                    if nm:
                        return self.lift(self.method(cur, nm, [v], [], s2, ctx, n),
                                         lambda s3, _: [(s3, "next", None)])
                if ty and ty[0] in ("list", "set", "dict", "deque"):
                    self.mutate(cur, s2)
                    self.emit(s2, Ev("call", "__i" + op, recv=cur, args=[v], node=n,
                                     func=ctx.func))
                    return [(s2, "next", None)]
                val = self.binop(op, cur, v, s2, n)
                return self.assign(n.target, val, s2, ctx, aug=True)
            return self.lift(self.ev(n.value, s, ctx), g)
        return self.lift(self.ev(load, st, ctx), f)

    def s_Delete(self, n, st, ctx):
        live = [(st, "next", None)]
        for t in n.targets:
            nxt = []
            for s, k, v in live:
                if k != "next":
                    nxt.append((s, k, v))
                else:
                    nxt.extend(self.delete(t, s, ctx))
            live = nxt
        return live

    def delete(self, t, st, ctx):
        if isinstance(t, ast.Name):
            st.frames[ctx.fid].pop(t.id, None)
            return [(st, "next", None)]
        if isinstance(t, ast.Attribute):
            def f(s, b):
                self.emit(s, Ev("delattr", t.attr, recv=b, node=t, func=ctx.func))
                s.heap.pop((b, t.attr), None)
                self.mutate(("fld", b, t.attr), s)
                return [(s, "next", None)]
            return self.lift(self.ev(t.value, st, ctx), f)
        if isinstance(t, ast.Subscript):
            def f(s, b):
                def g(s2, k):
                    return self.lift(self.delitem(b, k, s2, ctx, t),
                                     lambda s3, _: [(s3, "next", None)])
                return self.lift(self.ev(t.slice, s, ctx), g)
            return self.lift(self.ev(t.value, st, ctx), f)
        return [(st, "next", None)]

    def delitem(self, b, k, st, ctx, node):
        c = self.cls_of(b, st)
        if c is not None and self.exact(b):
            r = self.p.lookup(c, "__delitem__")
            if r and r[0] == "method":
                return self.call(("bound", b, r[1].qual), [k], [], st, ctx, node)
        ty = self.type_of(b, st)
        same = b[0] == "list" or ty and ty[0] in ("list", "builtins.list")
        same = same and self.as_method(b, k, st)
        if same:  # `del x[x.index(y)]`, `del x[:]`
            return self.method(b, same[0], same[1], [], st, ctx, node)
        if b[0] in ("dict", "list") and (b, "$elts") in st.heap:
            r = self.exact_op(b, st.heap[(b, "$elts")], "__delitem__", [k], (), st, ctx, node)
            if r is not None:
                st.events[-1].kind = "delitem"
                return r
            st.heap.pop((b, "$elts"), None)
        cont = bool(ty and ty[0] in CONTAINERS)
        out = []
        if cont and self.may_raise(st):
            s2 = st.fork()
            out.append((s2, Raised(("exc", ext("builtins.LookupError"), s2.uid(node)))))
        self.mutate(b, st)
        self.emit(st, Ev("delitem", recv=b, args=[k], node=node, func=ctx.func))
        if not cont:
            out += self.user_effect(st, ctx, node)
        else:
            out.append((st, NONE))
        return out

    def as_method(self, b, k, st):
        """The list method that deleting `b[k]` amounts to."""
        if k[0] in ("slice", "slice3") and all(t == NONE for t in k[-3:]):
            return "clear", []
        for e in reversed(st.events):
            if e.kind == "call" and e.name == "index" and e.res == k and e.recv == b and len(e.args) == 1:
                return "remove", list(e.args)
            if e.kind not in ("read", "getattr"):
                return None
        return None

    def user_effect(self, st, ctx, node, val=NONE):
        """User code runs here: it may change state and may raise."""
        out = []
        self.bump(st)
        if self.may_raise(st):
            s2 = st.fork()
            self.check_cap()
            out.append((s2, Raised(("exc", None, s2.uid(node, "x")))))
        out.insert(0, (st, val))
        return out

    def may_raise(self, st):
        return self.cfg.raises or st.trys > 0

    def s_Raise(self, n, st, ctx):
        if n.exc is None:
            e = st.excs[-1] if st.excs else ("exc", None, "reraise")
            self.emit(st, Ev("raise", "reraise", recv=e, node=n, func=ctx.func))
            return [(st, "raise", e)]

        def f(s, v):
            def g(s2, cause):
                e = v
                if v[0] in ("ext", "cls"):
                    e = ("exc", v, s2.uid(n))
                if cause is not None:
                    s2.heap[(e, "__cause__")] = cause
                self.emit(s2, Ev("raise", "raise", recv=e, args=[cause] if cause else [],
                                 node=n, func=ctx.func,
                                 extra={"handling": s2.excs[-1] if s2.excs else None}))
                return [(s2, "raise", e)]
            if n.cause is None:
                return g(s, None)
            return self.lift(self.ev(n.cause, s, ctx), g)
        return self.lift(self.ev(n.exc, st, ctx), f)

    # -- assignment

    def assign_name(self, name, v, st, ctx):
        if name in getattr(st, "frames", {}).get(ctx.fid, {}) or True:
            fr = st.frames[ctx.fid]
            if fr.get("$nonlocal " + name):
                c = ctx.parent
                while c is not None:
                    if name in st.frames.get(c.fid, {}):
                        st.frames[c.fid][name] = v
                        return [(st, "next", None)]
                    c = c.parent
            if fr.get("$global " + name):
                g = ("glob", f"{ctx.module.name}.{name}")
                st.heap[(g, "$value")] = v
                self.emit(st, Ev("store", name, recv=("mod", ctx.module.name), args=[v],
                                 func=ctx.func))
                return [(st, "next", None)]
            fr[name] = v
        return [(st, "next", None)]

    def assign(self, t, v, st, ctx, aug=False):
        if isinstance(t, ast.Name):
            return self.assign_name(t.id, v, st, ctx)
        if isinstance(t, ast.Attribute):
            return self.lift(self.ev(t.value, st, ctx),
                             lambda s, b: self.store_attr(b, t.attr, v, s, ctx, t))
        if isinstance(t, ast.Subscript):
            def f(s, b):
                def g(s2, k):
                    return self.lift(self.store_item(b, k, v, s2, ctx, t),
                                     lambda s3, _: [(s3, "next", None)])
                return self.lift(self.ev(t.slice, s, ctx), g)
            return self.lift(self.ev(t.value, st, ctx), f)
        if isinstance(t, (ast.Tuple, ast.List)):
            c = self.cls_of(v, st) if v[0] == "obj" and self.exact(v) else None
            r = self.p.lookup(c, "__iter__") if c is not None else None
            if r and r[0] == "method" and not r[1].is_gen and not self.cfg.is_opaque(r[1]) \
                    and r[1].qual not in st.stack:
                def h(s, w):
                    w, _, _ = self.iter_source(w, s)
                    return self.assign_parts(t, w if w[0] in ("tuple", "list", "set") else v, s, ctx)
                return self.lift(self.call(("bound", v, r[1].qual), [], [], st, ctx, t), h)
            return self.assign_parts(t, v, st, ctx)
        return [(st, "next", None)]

    def assign_parts(self, t, v, st, ctx):
        live = [(st, "next", None)]
        for e, x in zip(t.elts, self.unpack(v, t.elts, st)):
            nxt = []
            for s, k, y in live:
                if k != "next":
                    nxt.append((s, k, y))
                else:
                    tt = e.value if isinstance(e, ast.Starred) else e
                    nxt.extend(self.assign(tt, x, s, ctx))
            live = nxt
        return live

    def unpack(self, v, elts, st):
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        items = None
        if v[0] == "tuple" and not any(x[0] == "star" for x in v[1]):
            items = list(v[1])
        elif v[0] == "nt":
            items = list(v[2])
        elif v[0] in ("list", "set"):
            el = st.heap.get((v, "$elts"))
            if el is not None and all(e[0] == "item" for e in el):
                items = [e[1] for e in el]
        if items is not None:
            if star is None and len(items) == n:
                return items
            if star is not None and len(items) >= n - 1:
                k = len(items) - (n - 1)
                return (items[:star] + [("tuple", tuple(items[star:star + k]))]
                        + items[star + k:])
        if star is None:
            return [self.item_term(v, C(i), st) for i in range(n)]
        return [("unk", "unpack", st.uid(elts[i])) for i in range(n)]

    def item_term(self, b, k, st):
        if b[0] == "tuple" and is_const(k) and isinstance(cval(k), int):
            if not any(x[0] == "star" for x in b[1]):
                try:
                    return b[1][cval(k)]
                except IndexError:
                    pass
            elif cval(k) >= 0 and cval(k) < len(b[1]) and not any(
                    x[0] == "star" for x in b[1][:cval(k) + 1]):
                return b[1][cval(k)]
        if b[0] == "nt" and is_const(k) and isinstance(cval(k), int):
            try:
                return b[2][cval(k)]
            except IndexError:
                pass
        if k[0] == "idx" and k[1] == b:
            return ("elem", b, k[2])
        if k[0] == "key" and k[1] == b:
            return ("val", b, k[2])
        if is_const(k) and isinstance(cval(k), int) and b[0] == "elem" and False:
            return b
        if k[0] == "slice3":
            return ("slice", b, k[1], k[2], k[3], self.ver(b, st) if self.mutable(b, st) else 0)
        return ("item", b, k, self.ver(b, st) if self.mutable(b, st) else 0)

    def mutable(self, b, st):
        ty = self.type_of(b, st)
        if ty and ty[0] in ("tuple", "str"):
            return False
        if b[0] in ("param", "tuple", "slice"):
            return bool(st.cver.get(b))
        return True

    def store_attr(self, b, name, v, st, ctx, node):
        c = self.cls_of(b, st) if b[0] not in ("cls",) else None
        if c is not None and self.exact(b):
            f = self.p.lookup_setter(c, name)
            if f is not None and not self.cfg.is_opaque(f):
                return self.lift(self.inline(f, b, [v], [], st, ctx, node),
                                 lambda s, _: [(s, "next", None)])
            r = self.p.lookup(c, "__setattr__")
            if r and r[0] == "method" and ctx.func != r[1].qual:
                return self.lift(self.call(("bound", b, r[1].qual), [C(name), v], [], st, ctx,
                                           node), lambda s, _: [(s, "next", None)])
        self.emit(st, Ev("store", name, recv=b, args=[v], node=node, func=ctx.func))
        st.heap[(b, name)] = v
        self.escape(v, st, b)
        if b[0] not in ("obj", "cls", "mod", "fn", "closure", "glob", "exc") and not (
                self.exact(b)) and c is None:
            return self.lift(self.user_effect(st, ctx, node), lambda s, _: [(s, "next", None)])
        return [(st, "next", None)]

    def escape(self, v, st, into=None):
        for t in exposed(v):
            if t[0] in ("obj", "list", "dict", "set", "closure"):
                if into is not None and into[0] == "obj" and (into, "$escaped") not in st.heap:
                    continue
                st.heap[(t, "$escaped")] = TRUE

    def store_item(self, b, k, v, st, ctx, node):
        c = self.cls_of(b, st)
        if c is not None and self.exact(b):
            r = self.p.lookup(c, "__setitem__")
            if r and r[0] == "method":
                return self.call(("bound", b, r[1].qual), [k, v], [], st, ctx, node)
        if b[0] == "dict" and (b, "$elts") in st.heap:
            el = st.heap[(b, "$elts")]
            if is_const(k):
                el = tuple(e for e in el if not (e[0] == "item" and e[1][1][0] == k))
            st.heap[(b, "$elts")] = (*el, ("item", tup(k, v)))
            self.mutate(b, st)
            self.emit(st, Ev("setitem", recv=b, args=[k, v], node=node, func=ctx.func))
            return [(st, NONE)]
        self.mutate(b, st)
        self.emit(st, Ev("setitem", recv=b, args=[k, v], node=node, func=ctx.func))
        self.escape(v, st)
        ty = self.type_of(b, st)
        if ty and ty[0] in CONTAINERS:
            st.sel[(b, k)] = v
            return [(st, NONE)]
        return self.user_effect(st, ctx, node)

    # -- control flow with exceptions

    def s_Try(self, n, st, ctx):
        st.trys += 1
        outs = self.block(n.body, st, ctx)
        after = []
        for s, k, v in outs:
            s.trys -= 1
            if k == "raise" and n.handlers:
                after.extend(self.handle(n.handlers, s, v, ctx))
            elif k == "next" and n.orelse:
                after.extend(self.block(n.orelse, s, ctx))
            else:
                after.append((s, k, v))
        if not n.finalbody:
            return after
        res = []
        for s, k, v in after:
            if k == "raise":
                s.excs = (*s.excs, v)
            for s2, k2, v2 in self.block(n.finalbody, s, ctx):
                if k == "raise":
                    s2.excs = s2.excs[:-1]
                res.append((s2, k, v) if k2 == "next" else (s2, k2, v2))
        return res

    s_TryStar = s_Try

    def handle(self, handlers, st, exc, ctx):
        if not handlers:
            return [(st, "raise", exc)]
        h = handlers[0]
        if h.type is None:
            matches = [(st, True)]
        else:
            matches = []
            st.trys += 1 if False else 0
            for s, cl in self.ev(h.type, st, ctx):
                if type(cl) is Raised:
                    matches.append((s, cl))
                    continue
                matches.extend(self.exc_match(s, exc, cl, h))
        out = []
        for s, m in matches:
            if type(m) is Raised:
                out.append((s, "raise", m.exc))
            elif m:
                s.excs = (*s.excs, exc)
                if h.name:
                    s.frames[ctx.fid][h.name] = exc
                self.emit(s, Ev("except", recv=exc, node=h, func=ctx.func))
                for s2, k, v in self.block(h.body, s, ctx):
                    s2.excs = s2.excs[:-1]
                    out.append((s2, k, v))
            else:
                out.extend(self.handle(handlers[1:], s, exc, ctx))
        return out

    def exc_match(self, st, exc, cl, node):
        if cl[0] == "tuple":
            live = [st]
            out = []
            for c in cl[1]:
                nxt = []
                for s in live:
                    for s2, m in self.exc_match(s, exc, c, node):
                        (out if m else nxt).append((s2, True) if m else s2)
                live = nxt
            return out + [(s, False) for s in live]
        c = None
        if exc[0] == "exc":
            c = exc[1]
        elif exc[0] == "obj":
            c = ("cls", exc[2])
        if c is not None:
            r = st.facts.subclass(c, cl)
            if r is not None:
                if r is False and c[0] == "ext" and c[1].endswith("LookupError") and cl[0] == "ext" \
                        and cl[1].split(".")[-1] in ("KeyError", "IndexError"):
                    r = True
                return [(st, bool(r))]
        if cl == ext("builtins.BaseException"):
            return [(st, True)]
        atom = ("op", "isinstance", exc, cl)
        return self.branch(st, atom, node)

    def s_With(self, n, st, ctx):
        return self.with_items(n.items, n.body, st, ctx, n)

    def with_items(self, items, body, st, ctx, node):
        if not items:
            return self.block(body, st, ctx)
        it = items[0]

        def f(s, c):
            return self.with_one(c, it, lambda s2: self.with_items(items[1:], body, s2, ctx, node),
                                 s, ctx, node)
        return self.lift(self.ev(it.context_expr, st, ctx), f)

    def bind_as(self, it, v, st, ctx):
        if it is None or it.optional_vars is None:
            return [(st, "next", None)]
        return self.assign(it.optional_vars, v, st, ctx)

    def with_one(self, c, it, body, st, ctx, node):
        ty = self.type_of(c, st)
        if ty and ty[0] in LOCKS:
            st.locks = (*st.locks, c)
            self.emit(st, Ev("acquire", recv=c, node=node, func=ctx.func))
            out = []
            for s, k, v in body(st):
                self.emit(s, Ev("release", recv=c, node=node, func=ctx.func))
                s.locks = s.locks[:-1]
                out.append((s, k, v))
            return out
        if c[0] == "ctxcall":
            return self.with_gen(c, it, body, st, ctx, node)
        if c[0] == "new" and c[1].endswith(".suppress"):
            out = []
            st.trys += 1
            for s, k, v in body(st):
                s.trys -= 1
                if k == "raise":
                    for s2, m in self.exc_match(s, v, ("tuple", c[2]), node):
                        if m:
                            self.emit(s2, Ev("except", "suppress", recv=v, node=node,
                                             func=ctx.func))
                            out.append((s2, "next", None))
                        else:
                            out.append((s2, "raise", v))
                else:
                    out.append((s, k, v))
            return out
        cls = self.cls_of(c, st)
        en = self.p.lookup(cls, "__enter__") if cls is not None and self.exact(c) else None
        exi = self.p.lookup(cls, "__exit__") if cls is not None and self.exact(c) else None
        if en and exi and en[0] == "method" and exi[0] == "method":
            def after_enter(s, v):
                out = []
                for s1, k1, v1 in self.bind_as(it, v, s, ctx):
                    s1.trys += 1
                    for s2, k, x in body(s1):
                        s2.trys -= 1
                        if k == "raise":
                            s2.excs = (*s2.excs, x)
                            a = [("type", x), x, ("unk", "tb", "")]
                        else:
                            a = [NONE, NONE, NONE]
                        for s3, r in self.call(("bound", c, exi[1].qual), a, [], s2, ctx, node):
                            if k == "raise":
                                s3.excs = s3.excs[:-1]
                            if type(r) is Raised:
                                out.append((s3, "raise", r.exc))
                            elif k == "raise":
                                for s4, b in self.branch(s3, r, node):
                                    out.append((s4, "next", None) if b else (s4, k, x))
                            else:
                                out.append((s3, k, x))
                return out
            return self.lift(self.call(("bound", c, en[1].qual), [], [], st, ctx, node),
                             after_enter)
        # unknown context manager
        self.emit(st, Ev("enter", recv=c, node=node, func=ctx.func))
        if not self.pure_ctx(c):
            self.bump(st)
        out = []
        for s1, k1, v1 in self.bind_as(it, ("call", ("attr", c, "__enter__", 0), (), (), 0), st, ctx):
            for s, k, v in body(s1):
                self.emit(s, Ev("leave", recv=c, node=node, func=ctx.func, extra={"how": k}))
                if not self.pure_ctx(c):
                    self.bump(s)
                out.append((s, k, v))
        return out

    def pure_ctx(self, c):
        return c[0] == "call" and c[1][0] == "ext" and c[1][1].startswith("warnings.")

    def with_gen(self, c, it, body, st, ctx, node):
        _, fq, selft, args, kw, _ = c
        f = self.p.funcs[fq]

        def yh(s, val, ynode):
            out = []
            for s1, k1, v1 in self.bind_as(it, val, s, ctx):
                for s2, k, v in body(s1):
                    if k == "next":
                        out.append((s2, NONE))
                    elif k == "raise":
                        out.append((s2, Raised(v)))
                    else:
                        s2.pending = (*s2.pending, (k, v))
                        s2.heap[(("ctx", c), "$pend")] = TRUE
                        out.append((s2, NONE))
            return out

        out = []
        n0 = len(st.pending)
        for s, r in self.inline(f, selft, list(args), list(kw), st, ctx, node, yh=yh):
            if type(r) is Raised:
                s.pending = s.pending[:n0]
                out.append((s, "raise", r.exc))
            elif len(s.pending) > n0:
                k, v = s.pending[-1]
                s.pending = s.pending[:-1]
                out.append((s, k, v))
            else:
                out.append((s, "next", None))
        return out

    # ------------------------------------------------------------------ loops

    def s_For(self, n, st, ctx):
        def f(s, it):
            return self.iterate(
                it, s, ctx, n,
                lambda s2, v: self.assign(n.target, v, s2, ctx),
                lambda s2: self.block(n.body, s2, ctx),
                (lambda s2: self.block(n.orelse, s2, ctx)) if n.orelse else None)
        return self.lift(self.ev(n.iter, st, ctx), f)

    s_AsyncFor = s_For

    def s_While(self, n, st, ctx):
        orelse = (lambda s2: self.block(n.orelse, s2, ctx)) if n.orelse else None
        return self.loop(st, ctx, n, None,
                         test=lambda s: self.ev_cond(n.test, s, ctx),
                         body=lambda s: self.block(n.body, s, ctx), orelse=orelse)

    def iter_source(self, it, st):
        """Look through iter()/list()/tuple() and pick how elements are named."""
        snap = False
        order = None
        while it[0] == "call" and it[1][0] == "ext" and len(it[2]) >= 1 and not (
                it[2][0][0] == "star"):
            n = it[1][1].split(".")[-1]
            if n in ("iter", "list", "tuple", "frozenset") and len(it[2]) == 1:
                snap = snap or n != "iter"
                it = it[2][0]
            elif n in ("copy",) and len(it[2]) == 1:
                it = it[2][0]
                snap = True
            else:
                snap = snap or n in ("set", "sorted", "fromkeys", "dict")
                break
        if it[0] == "call" and it[1][0] == "attr" and it[1][2] == "copy" and not it[2]:
            ty = self.type_of(it[1][1], st)
            if ty and ty[0] in CONTAINERS:
                return it[1][1], True, order
        if it[0] == "slice" and it[2] == NONE and it[3] == NONE and it[4] == NONE:
            return it[1], True, order
        return it, snap, order

    def iterate(self, it, st, ctx, node, bind, body, orelse=None):
        """Run body for the elements of `it`."""
        it, snap, _ = self.iter_source(it, st)
        fin = orelse or (lambda s: [(s, "next", None)])
        if it[0] == "tuple" and not any(x[0] == "star" for x in it[1]) and len(it[1]) <= UNROLL:
            return self.unroll(list(it[1]), st, ctx, bind, body, fin)
        if it[0] == "nt":
            return self.unroll(list(it[2]), st, ctx, bind, body, fin)
        if it[0] == "const" and it[1] in ("str", "tuple"):
            return self.unroll([C(x) for x in it[2]], st, ctx, bind, body, fin) if len(it[2]) <= UNROLL else fin(st)
        inner = it
        wrap = None
        back = False
        while inner[0] == "call" and inner[1][0] == "ext" and inner[1][1].split(".")[-1] in (
                "sorted", "reversed") and inner[2]:
            back ^= inner[1][1].endswith("reversed")
            inner = inner[2][0]
        if inner is not it and inner[0] in ("list", "set", "gencall"):
            wrap = it
        else:
            inner = it
        if inner[0] in ("list", "set", "dict"):
            el = st.heap.get((inner, "$elts"))
            if el is not None and len(el) <= UNROLL:
                if wrap is not None and back:
                    if not all(e[0] == "item" or len(el) == 1 and self.of_range(e, st) for e in el):
                        return self.loop(st, ctx, node, it, bind=bind, body=body, orelse=orelse)
                    el = tuple(reversed(el))
                if inner[0] == "dict":
                    el = tuple(self.map_entry(e, 0) for e in el)
                return self.iter_entries(el, wrap or inner, st, ctx, node, bind, body, fin)
        if it[0] == "view" and it[2][0] == "dict":
            el = st.heap.get((it[2], "$elts"))
            if el is not None and len(el) <= UNROLL:
                ix = {"keys": 0, "values": 1}.get(it[1])
                el = tuple(self.map_entry(e, ix) for e in el)
                return self.iter_entries(el, it, st, ctx, node, bind, body, fin)
        if it[0] == "gencall":
            return self.iter_gen(it, st, ctx, node, bind, body, fin)
        if it[0] == "call" and it[1] == ext("builtins.enumerate") and it[2] and len(it[2]) + len(
                it[3]) <= 2:
            el = self.exact_seq(it[2][0], st)
            first = it[2][1] if len(it[2]) == 2 else dict(it[3]).get("start", C(0))
            if el is not None and len(el) <= UNROLL and is_const(first):
                return self.unroll([tup(C(first[2] + i), v) for i, v in enumerate(el)], st, ctx,
                                   bind, body, fin)
        if it[0] == "call" and it[1] == ext("builtins.enumerate") and it[2][0][0] in (
                "gencall", "list", "tuple", "set"):
            return self.iterate(it[2][0], st, ctx, node,
                                lambda s, v: bind(s, tup(("unk", "n", s.uid(node, "n")), v)),
                                body, orelse)
        if it[0] == "call" and it[1] == ext("builtins.zip") and not it[3] and it[2]:
            cols = [self.exact_seq(a, st) for a in it[2]]
            if all(c is not None for c in cols) and min(map(len, cols)) <= UNROLL:
                return self.unroll([("tuple", row) for row in zip(*cols)], st, ctx, bind, body, fin)
        if it[0] == "call" and it[1] == ext("itertools.chain") and not it[3]:
            el = []
            for a in it[2]:
                a, _, _ = self.iter_source(a, st)
                k = st.heap.get((a, "$elts")) if a[0] in ("list", "set") else None
                if a[0] == "tuple" and not any(e[0] == "star" for e in a[1]):
                    el += a[1]
                elif k is not None and all(e[0] == "item" for e in k):
                    el += [e[1] for e in k]
                else:
                    break
            else:
                if len(el) <= UNROLL:
                    return self.unroll(el, st, ctx, bind, body, fin)
        c = self.cls_of(it, st)
        if c is not None and self.exact(it):
            r = self.p.lookup(c, "__iter__")
            if r and r[0] == "method" and not self.cfg.is_opaque(r[1]) and not self.looping(r[1].qual, st):
                def f(s, v):
                    if v == it:
                        return self.loop(s, ctx, node, v, bind=bind, body=body, orelse=orelse)
                    return self.iterate(v, s, ctx, node, bind, body, orelse)
                return self.lift(self.call(("bound", it, r[1].qual), [], [], st, ctx, node), f)
        return self.loop(st, ctx, node, it, bind=bind, body=body, orelse=orelse, snap=snap)

    def exact_seq(self, a, st):
        """The elements of an iterable known item by item, else None."""
        a, _, _ = self.iter_source(a, st)
        if a[0] == "tuple":
            return None if any(e[0] == "star" for e in a[1]) else list(a[1])
        if a[0] == "const" and a[1] in ("str", "tuple"):
            return [C(x) for x in a[2]]
        ix = None
        if a[0] == "view":
            a, ix = a[2], {"keys": 0, "values": 1}.get(a[1])
        elif a[0] == "dict":
            ix = 0
        el = st.heap.get((a, "$elts")) if a[0] in ("list", "dict") else None
        if el is None or not all(e[0] == "item" for e in el):
            return None
        return [self.map_entry(e, ix)[1] for e in el] if a[0] == "dict" else [e[1] for e in el]

    def map_entry(self, e, ix):
        if ix is None:
            return e
        if e[0] == "item":
            v = e[1]
            if v[0] == "tuple" and len(v[1]) == 2:
                return ("item", v[1][ix])
            return ("item", ("item", v, C(ix), 0))
        if e[0] == "each":
            return ("each", e[1], e[2], tuple(
                (cs, tuple(self.map_entry(x, ix) for x in tail)) for cs, tail in e[3]))
        if e[0] == "spread":
            return ("spread", e[1], ix)
        return e

    def unroll(self, items, st, ctx, bind, body, fin):
        live = [st]
        out = []
        for x in items:
            nxt = []
            for s in live:
                for s1, k, v in bind(s, x):
                    if k != "next":
                        out.append((s1, k, v))
                        continue
                    for s2, k2, v2 in body(s1):
                        if k2 in ("next", "continue"):
                            nxt.append(s2)
                        elif k2 == "break":
                            out.append((s2, "next", None))
                        else:
                            out.append((s2, k2, v2))
            live = nxt
        for s in live:
            out.extend(fin(s))
        return out

    def iter_entries(self, el, src, st, ctx, node, bind, body, fin):
        """Iterate a local collection whose construction was observed."""
        live = [st]
        out = []
        for e in el:
            nxt = []
            for s in live:
                if e[0] == "item":
                    res = self.unroll([e[1]], s, ctx, bind, body, lambda z: [(z, "#fin", None)])
                elif e[0] == "each":
                    src_e = e[2]

                    def b2(s2, lid, _e=e):
                        return [(s2, "next", None)]

                    def body2(s2, _e=e):
                        res2 = []
                        for cs, tail in _e[3]:
                            s3 = s2.fork()
                            ok = True
                            for a, p, nd in cs:
                                d = s3.facts.decide(a)
                                if d is not None and d != p:
                                    ok = False
                                    break
                                s3.facts.add(a, p, nd)
                            if not ok:
                                continue
                            its = [x[1] for x in tail if x[0] == "item"]
                            if len(its) != len(tail):
                                its = its or [("unk", "entry", s3.uid(node))]
                            res2.extend(self.unroll(its, s3, ctx, bind, body,
                                                    lambda z: [(z, "next", None)])
                                        if not self._has_break else
                                        self.unroll_b(its, s3, ctx, bind, body))
                        return res2
                    self._has_break = True
                    res = self.loop(s, ctx, node, src, bind=None, body=body2,
                                    orelse=lambda z: [(z, "#fin", None)], entry=src_e)
                else:
                    srct = e[1] if e[0] == "spread" else ("unk", "part", s.uid(node))
                    if e[0] == "spread" and len(e) > 2:
                        srct = ("view", ("keys", "values")[e[2]], srct)
                    res = self.loop(s, ctx, node, srct, bind=bind, body=body,
                                    orelse=lambda z: [(z, "#fin", None)])
                for s2, k, v in res:
                    if k == "#fin":
                        nxt.append(s2)
                    elif k == "break":
                        out.append((s2, "next", None))
                    else:
                        out.append((s2, k, v))
            live = nxt
        for s in live:
            out.extend(fin(s))
        return out

    def unroll_b(self, items, st, ctx, bind, body):
        """Like unroll but lets a break escape as 'break'."""
        live = [st]
        out = []
        for x in items:
            nxt = []
            for s in live:
                for s1, k, v in bind(s, x):
                    if k != "next":
                        out.append((s1, k, v))
                        continue
                    for s2, k2, v2 in body(s1):
                        if k2 in ("next", "continue"):
                            nxt.append(s2)
                        else:
                            out.append((s2, k2, v2))
            live = nxt
        return out + [(s, "next", None) for s in live]

    def iter_gen(self, g, st, ctx, node, bind, body, fin):
        _, fq, selft, args, kw, _ = g
        f = self.p.funcs.get(fq)
        GE = ("exc", ext("builtins.GeneratorExit"), "close")
        n0 = len(st.pending)

        def yh(s, val, ynode):
            out = []
            for s1, k1, v1 in bind(s, val):
                if k1 != "next":
                    out.append((s1, Raised(v1)))
                    continue
                for s2, k, v in body(s1):
                    if k in ("next", "continue"):
                        out.append((s2, NONE))
                    elif k == "raise":
                        s2.pending = (*s2.pending, ("raise", v))
                        out.append((s2, Raised(GE)))
                    else:
                        s2.pending = (*s2.pending, (k, v))
                        out.append((s2, Raised(GE)))
            return out
        out = []
        if f is None and fq in self.closures:
            res = self.inline_closure(("closure", fq), list(args), list(kw), st, ctx, node, yh=yh)
        else:
            res = self.inline(f, selft, list(args), list(kw), st, ctx, node, yh=yh)
        for s, r in res:
            if len(s.pending) > n0:
                k, v = s.pending[n0]
                s.pending = s.pending[:n0]
                out.append((s, "next", None) if k == "break" else (s, k, v))
            elif type(r) is Raised:
                out.append((s, "raise", r.exc))
            else:
                out.extend(fin(s))
        return out

    def elem_of(self, it, lid, st):
        k = it[0]
        if k == "view":
            b = it[2]
            if it[1] == "items":
                return tup(("key", b, lid), ("val", b, lid))
            return ("val" if it[1] == "values" else "key", b, lid)
        if k == "call" and it[1][0] == "ext":
            n = it[1][1].split(".")[-1]
            if n == "enumerate":
                src, _, _ = self.iter_source(it[2][0], st)
                start = it[2][1] if len(it[2]) > 1 else next(
                    (v for kk, v in it[3] if kk == "start"), None)
                ix = ("idx", src, lid)
                if start is not None and start != C(0):
                    ix = ("op", "+", ix, start)
                return tup(ix, self.elem_of(src, lid, st))
            if n == "zip":
                return ("tuple", tuple(self.elem_of(self.iter_source(x, st)[0], lid, st)
                                       for x in it[2]))
            if n == "range":
                a = it[2]
                if len(a) == 1 and a[0][0] == "op" and a[0][1] == "len":
                    return ("idx", a[0][2], lid)
                if (len(a) >= 2 and a[0] == C(0) and a[1][0] == "op" and a[1][1] == "len"
                        and (len(a) == 2 or a[2] == C(1))):
                    return ("idx", a[1][2], lid)
        ty = self.type_of(it, st)
        if ty and ty[0] in ("dict", "Mapping", "MappingProxyType", "defaultdict", "MutableMapping"):
            return ("key", it, lid)
        return ("elem", it, lid)

    def loop_src(self, it, st):
        """The collection a loop ranges over (for the loop event)."""
        if it is None:
            return None
        if it[0] == "call" and it[1][0] == "ext":
            n = it[1][1].split(".")[-1]
            if n == "enumerate":
                return self.loop_src(self.iter_source(it[2][0], st)[0], st)
            if n == "range":
                e = self.elem_of(it, "x", st)
                if e[0] == "idx":
                    return e[1]
        if it[0] == "view":
            return it[2]
        return it

    def loop(self, st, ctx, node, it, bind=None, body=None, test=None, orelse=None, snap=False,
             entry=None):
        lid = st.uid(node, "L")
        fin = orelse or (lambda s: [(s, "next", None)])
        hv, hh, hc, hep = set(), set(), set(), False
        n0 = len(st.events)
        c0 = len(st.facts.order)
        src = self.loop_src(it, st)
        base = st.fork()
        rec = None
        for rnd in range(6):
            s = base.fork()
            heads = {}
            for (fid, var) in hv:
                if fid in s.frames:
                    s.frames[fid][var] = ("lv", lid, var)
            for key in hh:
                if key[1] == "$elts":
                    s.heap[key] = (*base.heap.get(key, ()), ("acc", lid))
                elif key in s.heap or True:
                    s.heap[key] = ("lv", lid, key[1])
            for x in hc:
                s.cver[x] = ("L", lid)
            if hep:
                s.epoch += 1
                self._drop_nonfinal(s)
            for k in [k for k in s.sel if k[0] in hc]:
                del s.sel[k]
            head = s.fork()
            # one generic iteration
            entered, exits = [], []
            if test is not None:
                for s1, v in test(s):
                    if type(v) is Raised:
                        exits.append((s1, "raise", v.exc))
                    elif v:
                        entered.append(s1)
                    else:
                        exits.append((s1, "exit", None))
            elif bind is not None:
                el = self.elem_of(it, lid, s)
                for s1, k, v in bind(s, el):
                    if k == "next":
                        entered.append(s1)
                    else:
                        exits.append((s1, k, v))
            else:
                entered.append(s)
            outs = []
            for s1 in entered:
                outs.extend(body(s1))
            # what did the completed iterations write?
            nv, nh, nc, nep = set(), set(), set(), False
            for s1, k, v in outs:
                if k not in ("next", "continue"):
                    continue
                for fid, env in s1.frames.items():
                    h = head.frames.get(fid)
                    if h is None:
                        continue
                    for var, val in env.items():
                        if h.get(var) != val:
                            nv.add((fid, var))
                for key, val in s1.heap.items():
                    if head.heap.get(key) != val and key[1] != "$escaped" and (
                            key[0] in [kk[0] for kk in head.heap] or key[0][0] != "obj"
                            or self._known_before(key[0], base)):
                        if key[1] == "$elts" and key not in head.heap:
                            continue
                        nh.add(key)
                for key in head.heap:
                    if key not in s1.heap and not key[1].startswith("$"):
                        nh.add(key) if False else None
                for x, val in s1.cver.items():
                    if head.cver.get(x) != val:
                        nc.add(x)
                if s1.epoch != head.epoch:
                    nep = True
            if nv <= hv and nh <= hh and nc <= hc and (hep or not nep):
                break
            hv |= nv
            hh |= nh
            hc |= nc
            hep = hep or nep
        h0 = len(head.events)
        hf = len(head.facts.order)
        comp = [(s1, k, v) for s1, k, v in outs if k in ("next", "continue")]
        bodies = [Path("next", None, s1.facts.order[hf:], s1.events[h0:], s1)
                  for s1, k, v in comp]
        # induction variables
        index = {}
        if test is not None:
            for (fid, var) in hv:
                hvv = ("lv", lid, var)
                vals = {s1.frames.get(fid, {}).get(var) for s1, _, _ in comp}
                if comp and vals == {("op", "+", hvv, C(1))}:
                    for s1, _, _ in comp:
                        for a, p, _n in s1.facts.order[hf:]:
                            if (a[1] == "<" and a[2] == hvv and a[3][0] == "op"
                                    and a[3][1] == "len" and p
                                    and base.frames.get(fid, {}).get(var) == C(0)):
                                index[hvv] = ("idx", a[3][2], lid)
        mp = {}
        if index:
            hvv, ix = next(iter(index.items()))
            src = ix[1]
            mp = {hvv: ix}

            def fix(t):
                if not isinstance(t, tuple):
                    return t
                r = subst(t, mp)
                return fix_items(r, ix)
            bodies = [self._map_path(b, fix) for b in bodies]
        extra = {"bodies": bodies, "lid": lid, "snap": snap, "iter": it, "entry": entry,
                 "index": bool(index), "while": test is not None,
                 "inits": {var: base.frames.get(fid, {}).get(var) for fid, var in hv},
                 "heapinits": {k: base.heap.get(k) for k in hh},
                 "epoch": hep}
        res = []
        # accumulators
        for key in hh:
            if key[1] != "$elts":
                continue
            pre = base.heap.get(key, ())
            alts = []
            ok = True
            for s1, _, _ in comp:
                v = s1.heap.get(key)
                if v is None or v[:len(pre) + 1] != (*pre, ("acc", lid)):
                    ok = False
                    break
                tail = v[len(pre) + 1:]
                if tail:
                    alts.append((s1.facts.order[hf:], tail))
            extra.setdefault("acc", {})[key] = (
                (*pre, ("each", lid, src, tuple(alts))) if ok else None)
        accs = extra.get("acc", {})

        def finish(s1, partial):
            for key, v in accs.items():
                cur = s1.heap.get(key)
                if cur is None:
                    continue
                if v is None:
                    s1.heap.pop(key, None)
                    continue
                i = next((i for i, e in enumerate(cur) if e == ("acc", lid)), None)
                if i is not None:
                    each = v[-1]
                    s1.heap[key] = (*cur[:i], each, *cur[i + 1:])

        # normal exits
        norm = [(s1, k, v) for s1, k, v in exits]
        if test is None:
            s1 = head.fork()
            norm.append((s1, "exit", None))
        for s1, k, v in norm:
            tail_ev = s1.events[h0:] if test is not None else []
            s1.events = s1.events[:n0] + [
                Ev("loop", recv=src, node=node, func=ctx.func, locks=base.locks,
                   epoch=base.epoch, extra=extra, nfacts=c0)] + tail_ev
            finish(s1, False)
            if k == "exit":
                res.extend(fin(s1))
            else:
                res.append((s1, k, v))
        for s1, k, v in outs:
            if k in ("next", "continue"):
                continue
            lastev = s1.events[h0:]
            if mp:
                lastev = [self._map_ev(e, fix) for e in lastev]
                v = fix(v) if isinstance(v, tuple) else v
                newf = [(fix(a), p, nn) for a, p, nn in s1.facts.order]
                s1.facts.order = tuple(newf)
                for fid in s1.frames:
                    s1.frames[fid] = {q: (fix(w) if isinstance(w, tuple) else w)
                                      for q, w in s1.frames[fid].items()}
            ex2 = dict(extra)
            ex2["partial"] = True
            ex2["last"] = len(lastev)
            s1.events = s1.events[:n0] + [
                Ev("loop", recv=src, node=node, func=ctx.func, locks=base.locks,
                   epoch=base.epoch, extra=ex2, nfacts=c0)] + lastev
            finish(s1, True)
            res.append((s1, "next" if k == "break" and True else k, v))
        return res

    def _known_before(self, obj, base):
        return any(b == obj for b, _ in base.heap)

    def _drop_nonfinal(self, st):
        for (b, n) in list(st.heap):
            if n.startswith("$") or n in self.cfg.preserve or n not in self.p.nonfinal:
                continue
            if b[0] == "obj" and (b, "$escaped") not in st.heap:
                continue
            if st.heap[(b, n)][0] == "lv":
                continue
            del st.heap[(b, n)]

    def _map_ev(self, e, fix):
        r = Ev(e.kind, e.name, fix(e.recv) if e.recv else e.recv,
               fix(e.fn) if e.fn else e.fn, [fix(a) for a in e.args],
               [(n, fix(v)) for n, v in e.kw], fix(e.res) if e.res else e.res, e.node, e.func,
               e.locks, e.epoch, e.extra, e.nfacts)
        if e.kind == "loop":
            ex = dict(e.extra)
            ex["bodies"] = [self._map_path(b, fix) for b in ex["bodies"]]
            r.extra = ex
        return r

    def _map_path(self, b, fix):
        return Path(b.kind, b.val, tuple((fix(a), p, n) for a, p, n in b.facts),
                    [self._map_ev(e, fix) for e in b.events], b.st)

    # ------------------------------------------------------------------ expressions

    def seq(self, exprs, st, ctx):
        """Evaluate expressions in order -> [(st, [terms]) | (st, Raised)]."""
        live = [(st, [])]
        for e in exprs:
            nxt = []
            for s, acc in live:
                if type(acc) is Raised:
                    nxt.append((s, acc))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, ctx):
                        if type(v) is Raised:
                            nxt.append((s2, v))
                        else:
                            nxt.append((s2, acc + self.flatten_star(v, s2)))
                    continue
                for s2, v in self.ev(e, s, ctx):
                    nxt.append((s2, v if type(v) is Raised else [*acc, v]))
            live = nxt
        return live

    def flatten_star(self, v, st):
        if v[0] == "tuple":
            return list(v[1])
        if v[0] == "nt":
            return list(v[2])
        if v[0] in ("list", "set"):
            el = st.heap.get((v, "$elts"))
            if el is not None and all(e[0] == "item" for e in el):
                return [e[1] for e in el]
        return [("star", v)]

    def ev(self, e, st, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, ("unk", type(e).__name__, st.uid(e)))]
        return m(e, st, ctx)

    def then(self, results, f):
        out = []
        for s, v in results:
            if type(v) is Raised:
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def ev_cond(self, e, st, ctx):
        """Evaluate as a condition -> [(st, bool | Raised)]."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, v if type(v) is Raised else not v)
                    for s, v in self.ev_cond(e.operand, st, ctx)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            live = [st]
            out = []
            for i, x in enumerate(e.values):
                nxt = []
                for s in live:
                    for s2, v in self.ev_cond(x, s, ctx):
                        if type(v) is Raised:
                            out.append((s2, v))
                        elif v == stop:
                            out.append((s2, stop))
                        elif i == len(e.values) - 1:
                            out.append((s2, not stop))
                        else:
                            nxt.append(s2)
                live = nxt
            return out
        out = []
        for s, v in self.ev(e, st, ctx):
            if type(v) is Raised:
                out.append((s, v))
            else:
                out.extend(self.truthy(v, s, ctx, e))
        return out

    def truthy(self, v, st, ctx, node):
        """Branch on the truth of a value (following __bool__/__len__ of known classes)."""
        c = self.cls_of(v, st) if v[0] in ("param", "obj") else None
        if c is not None and self.exact(v):
            for nm in ("__bool__", "__len__"):
                r = self.p.lookup(c, nm)
                if r and r[0] == "method" and not self.cfg.is_opaque(r[1]):
                    out = []
                    for s, x in self.call(("bound", v, r[1].qual), [], [], st, ctx, node):
                        if type(x) is Raised:
                            out.append((s, x))
                        else:
                            out.extend(self.branch(s, x, node))
                    return out
        return self.branch(st, v, node)

    def e_Constant(self, e, st, ctx):
        return [(st, C(e.value))]

    def e_JoinedStr(self, e, st, ctx):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        conv = [isinstance(v, ast.FormattedValue) and v.conversion in (ord("r"), ord("a"))
                for v in e.values]
        return self.then(self.seq(parts, st, ctx), lambda s, xs: [(s, ("op", "fstr", *(
            ("call", ext("builtins.repr"), (x,), (), 0) if c and not is_const(x) else x
            for x, c in zip(xs, conv))))])

    def e_Name(self, e, st, ctx):
        return self.name(e.id, st, ctx, e)

    def name(self, n, st, ctx, node):
        c = ctx
        while c is not None:
            fr = st.frames.get(c.fid)
            if fr is not None and n in fr and not fr.get("$global " + n):
                return [(st, fr[n])]
            c = c.parent
        r = self.p.resolve_name(ctx.module, n)
        return [(st, self.sym(r, st, n))]

    def sym(self, r, st, n="?"):
        if r is None:
            return ("unk", "name", n)
        if r[0] in ("cls", "fn", "mod"):
            return (r[0], r[1])
        if r[0] == "ext":
            return ("ext", r[1])
        if r[0] == "glob":
            g = ("glob", r[1])
            if (g, "$value") in st.heap:
                return st.heap[(g, "$value")]
            v = self.static_const(r[2], r[3])
            if v is not None:
                return v
            if isinstance(r[2], ast.Call) and (d := dotted(r[2].func)):
                c = self.p.resolve_dotted(r[3], d)
                if c and c[0] == "cls":
                    self.globcls[g] = c[1]
            return g
        return ("unk", "sym", n)

    def static_const(self, node, module, depth=0):
        """Constant value of a module/class level expression, or None."""
        if node is None or depth > 5:
            return None
        if isinstance(node, ast.Constant):
            return C(node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = self.static_const(node.operand, module, depth + 1)
            return C(-cval(v)) if v and isinstance(cval(v), (int, float)) else None
        if isinstance(node, ast.Tuple):
            xs = [self.static_const(x, module, depth + 1) for x in node.elts]
            return ("tuple", tuple(xs)) if all(x is not None for x in xs) else None
        if isinstance(node, (ast.Name, ast.Attribute)):
            d = dotted(node)
            if d is None:
                return None
            r = self.p.resolve_dotted(module, d)
            if r and r[0] == "glob":
                return self.static_const(r[2], r[3], depth + 1)
            if r and r[0] in ("cls", "fn"):
                return (r[0], r[1])
            if r and r[0] == "ext":
                return ("ext", r[1])
            parts = d.split(".")
            if len(parts) == 2:
                r = self.p.resolve_dotted(module, parts[0])
                if r and r[0] == "cls":
                    x = self.p.lookup(self.p.classes[r[1]], parts[1])
                    if x and x[0] == "attr":
                        return self.static_const(x[1], x[2].module, depth + 1)
        if isinstance(node, ast.Call):
            d = dotted(node.func)
            if d == "str" and len(node.args) == 1:
                return self.static_const(node.args[0], module, depth + 1)
        return None

    def e_NamedExpr(self, e, st, ctx):
        def f(s, v):
            return [(s2, v) if k == "next" else (s2, Raised(x))
                    for s2, k, x in self.assign(e.target, v, s, ctx)]
        return self.then(self.ev(e.value, st, ctx), f)

    def e_Tuple(self, e, st, ctx):
        return self.then(self.seq(e.elts, st, ctx), lambda s, xs: [(s, ("tuple", tuple(xs)))])

    def new_local(self, kind, entries, st, node):
        t = (kind, st.uid(node, "c"))
        st.heap[(t, "$elts")] = tuple(entries)
        return t

    def e_List(self, e, st, ctx):
        kind = "set" if isinstance(e, ast.Set) else "list"

        def f(s, xs):
            ent = []
            for x in xs:
                v = x[1] if x[0] == "star" else None
                el = s.heap.get((v, "$elts")) if v else None
                if v is None:
                    ent.append(("item", x))
                elif v[0] == "tuple":
                    ent.extend(("spread", y[1]) if y[0] == "star" else ("item", y) for y in v[1])
                elif el is not None and all(y[0] == "item" for y in el):
                    ent.extend(("item", y[1][1][0]) if v[0] == "dict" else y for y in el)
                else:
                    ent.append(("spread", v))
            if kind == "set":
                ent = [y for i, y in enumerate(ent) if not is_const(y[1]) or y not in ent[:i]]
            return [(s, self.new_local(kind, ent, s, e))]
        return self.then(self.seq(e.elts, st, ctx), f)

    e_Set = e_List

    def e_Dict(self, e, st, ctx):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)

        def f(s, xs):
            xs = list(xs)
            ent = []
            i = 0
            for k in e.keys:
                if k is None:
                    src = xs[i]
                    i += 1
                    if src[0] == "dict" and (src, "$elts") in s.heap:
                        ent.extend(s.heap[(src, "$elts")])
                    else:
                        ent.append(("spread", src))
                else:
                    ent.append(("item", tup(xs[i], xs[i + 1])))
                    i += 2
            return [(s, self.new_local("dict", merged(ent), s, e))]
        return self.then(self.seq(exprs, st, ctx), f)

    def e_Lambda(self, e, st, ctx):
        return self.mk_closure(e, st, ctx)

    def mk_closure(self, n, st, ctx):
        dflts = list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]

        def f(s, vals):
            uid = s.uid(n, "fn") + f"@{ctx.func}@{ctx.fid[2]}"
            self.closures[uid] = (n, ctx)
            t = ("closure", uid)
            s.heap[(t, "$defaults")] = ("tuple", tuple(vals))
            return [(s, t)]
        return self.then(self.seq(dflts, st, ctx), f)

    def e_IfExp(self, e, st, ctx):
        out = []
        for s, v in self.ev_cond(e.test, st, ctx):
            if type(v) is Raised:
                out.append((s, v))
            else:
                out.extend(self.ev(e.body if v else e.orelse, s, ctx))
        return out

    def e_BoolOp(self, e, st, ctx):
        stop = isinstance(e.op, ast.Or)
        live = [st]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            for s in live:
                for s2, v in self.ev(x, s, ctx):
                    if type(v) is Raised:
                        out.append((s2, v))
                    elif i == len(e.values) - 1:
                        out.append((s2, v))
                    else:
                        for s3, b in self.truthy(v, s2, ctx, x):
                            if type(b) is Raised:
                                out.append((s3, b))
                            elif b == stop:
                                if v[0] == "op" and v[1] in ("==", "is", "in", "<", "isinstance",
                                                            "not", "!=", "is not", ">", "not in"):
                                    v = C(stop)
                                out.append((s3, v))
                            else:
                                nxt.append(s3)
            live = nxt
        return out

    def e_UnaryOp(self, e, st, ctx):
        if isinstance(e.op, ast.Not):
            return [(s, v if type(v) is Raised else C(not v))
                    for s, v in self.ev_cond(e.operand, st, ctx)]

        def f(s, v):
            if isinstance(e.op, ast.USub) and is_const(v) and isinstance(cval(v), (int, float)):
                return [(s, C(-cval(v)))]
            return [(s, ("op", {ast.USub: "neg", ast.UAdd: "pos"}.get(type(e.op), "~"), v))]
        return self.then(self.ev(e.operand, st, ctx), f)

    def binop(self, op, a, b, st, node):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                     "/": lambda: x / y, "%": lambda: x % y,
                     "//": lambda: x // y}.get(op, lambda: None)()
                if r is not None and isinstance(r, (int, float, str, tuple)):
                    return C(r)
            except Exception:
                pass
        if op in ("+", "-"):
            from .conds import mk_add, split
            if is_const(b) and isinstance(cval(b), int) and not isinstance(cval(b), bool):
                t, c = split(a)
                return mk_add(t, c + (cval(b) if op == "+" else -cval(b)))
            if op == "+" and is_const(a) and isinstance(cval(a), int) and not isinstance(cval(a), bool):
                t, c = split(b)
                return mk_add(t, c + cval(a))
        if op == "+" and a[0] == "tuple" and b[0] == "tuple":
            return ("tuple", a[1] + b[1])
        if op == "|" and a[0] == "tuple" and b[0] == "set":
            el = st.heap.get((b, "$elts"))
            if el is not None and all(x[0] == "item" for x in el):
                return ("tuple", a[1] + tuple(x[1] for x in el if x[1] not in a[1]))
        if op == "+" and a == ("tuple", ()):
            return b
        if op == "+" and b == ("tuple", ()):
            return a
        if op == "+" and "tuple" in (a[0], b[0]):
            x = a[1] if a[0] == "tuple" else (("star", a),)
            y = b[1] if b[0] == "tuple" else (("star", b),)
            return ("tuple", (*x, *y))
        return ("op", op, a, b)

    def e_BinOp(self, e, st, ctx):
        op = BINOPS.get(type(e.op), "?")

        def f(s, xs):
            return [(s, self.binop(op, xs[0], xs[1], s, e))]
        return self.then(self.seq([e.left, e.right], st, ctx), f)

    def e_Compare(self, e, st, ctx):
        if len(e.ops) == 1:
            def f(s, xs):
                return self.compare(CMPOPS[type(e.ops[0])], xs[0], xs[1], s, ctx, e)
            return self.then(self.seq([e.left, e.comparators[0]], st, ctx), f)

        def g(s, xs):
            live = [s]
            out = []
            for i, o in enumerate(e.ops):
                nxt = []
                for s1 in live:
                    for s2, t in self.compare(CMPOPS[type(o)], xs[i], xs[i + 1], s1, ctx, e):
                        if type(t) is Raised:
                            out.append((s2, t))
                            continue
                        for s3, b in self.branch(s2, t, e):
                            if not b:
                                out.append((s3, FALSE))
                            elif i == len(e.ops) - 1:
                                out.append((s3, TRUE))
                            else:
                                nxt.append(s3)
                live = nxt
            return out
        return self.then(self.seq([e.left, *e.comparators], st, ctx), g)

    def compare(self, op, a, b, st, ctx, node):
        if op in ("in", "not in"):
            c = self.cls_of(b, st)
            if c is not None and self.exact(b):
                r = self.p.lookup(c, "__contains__")
                if r and r[0] == "method" and not self.cfg.is_opaque(r[1]):
                    def f(s, v):
                        return [(s2, C(x == (op == "in"))) for s2, x in self.branch(s, v, node)]
                    return self.then(self.call(("bound", b, r[1].qual), [a], [], st, ctx, node), f)
            if b[0] in ("list", "set", "dict"):
                el = st.heap.get((b, "$elts"))
                if el is not None and all(x[0] == "item" for x in el) and len(el) <= 12:
                    ks = [x[1] for x in el]
                    if b[0] == "dict":
                        ks = [k[1][0] for k in ks]
                    return [(st, ("op", op, a, ("tuple", tuple(ks))))]
            if b[0] == "view" and b[1] == "keys":
                b = b[2]
            if b[0] == "tuple" and any(x[0] != "star" for x in b[1]):
                return [(st, ("op", op, a, b))]
            if self.mutable(b, st) or st.cver.get(b):
                return [(st, ("op", op, a, b, self.ver(b, st)))]
            return [(st, ("op", op, a, b))]
        if op in ("==", "!=") and a[0] == b[0] == "list":
            from .conds import same_tuple
            x, y = (st.heap.get((t, "$elts")) for t in (a, b))
            if x is not None and y is not None and all(t[0] == "item" for t in (*x, *y)):
                q = same_tuple(("tuple", tuple(t[1] for t in x)), ("tuple", tuple(t[1] for t in y)))
                if q is not None:
                    return [(st, C(q == (op == "==")))]
        return [(st, ("op", op, a, b))]

    def e_Attribute(self, e, st, ctx):
        return self.then(self.ev(e.value, st, ctx),
                         lambda s, b: self.getattr(b, e.attr, s, ctx, e))

    def getattr(self, b, name, st, ctx, node):
        k = b[0]
        if name == "__code__" and self.code_of(b):
            return [(st, ("code", b))]
        if k == "code" and name == "co_argcount":
            a = self.code_of(b[1]).args
            return [(st, C(len(a.args) + len(a.posonlyargs)))]
        if k == "slice3" and name in ("start", "stop", "step"):
            return [(st, b[("start", "stop", "step").index(name) + 1])]
        if (b, name) in st.heap and k != "cls":
            return [(st, st.heap[(b, name)])]
        if k in ("cls", "obj"):
            v = self.on_class(b, name, st)
            if v is not None:
                return self.through(v, b, st, ctx, node)
        if k == "mod":
            r = self.p.resolve_name(self.p.modules[b[1]], name)
            if r is None:
                for q, c in self.p.classes.items():
                    if c.name == name and q.startswith(b[1]):
                        return [(st, ("cls", q))]
            return [(st, self.sym(r, st, name))]
        if k == "ext":
            return [(st, ("ext", f"{b[1]}.{name}"))]
        if k == "super":
            r = self.p.lookup(self.selfcls_of(b[1], st) or self.p.classes[b[2]], name,
                              after=self.p.classes[b[2]])
            if r and r[0] == "method":
                if r[1].kind == "property":
                    return self.call(("bound", b[1], r[1].qual), [], [], st, ctx, node)
                return [(st, ("bound", b[1], r[1].qual))]
            return [(st, ("attr", b, name, 0))]
        if k == "cls" or k == "type":
            c = self.p.classes.get(b[1]) if k == "cls" else self.cls_of(b[1], st)
            if name == "__name__" or name == "__dict__" or c is None:
                return [(st, ("attr", b, name, 0))]
            if f"{c.qual}.{name}" in self.p.classes:
                return [(st, ("cls", f"{c.qual}.{name}"))]
            r = self.p.lookup(c, name)
            if r and r[0] == "method":
                if r[1].kind == "class":
                    return [(st, ("bound", b, r[1].qual))]
                return [(st, ("fn", r[1].qual))]
            if r and r[0] == "attr" and not self.stored_attr(name):
                v = self.static_const(r[1], r[2].module)
                if v is not None:
                    return [(st, v)]
            own = ("cls", r[2].qual) if r and r[0] == "attr" else b
            if (own, name) in st.heap:
                return [(st, st.heap[(own, name)])]
            if name in self.cfg.nones:
                return [(st, NONE)]
            return [(st, ("attr", own, name, self.fver(name, st)))]
        if k == "nt":
            c = self.p.classes[b[1]]
            names = [n.target.id for n in c.node.body
                     if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
            if name in names and names.index(name) < len(b[2]):
                return [(st, b[2][names.index(name)])]
        if name == "__class__":
            return [(st, ("cls", b[2]) if k == "obj" else ("type", b))]
        if k in ("exc",) and name == "with_traceback":
            return [(st, ("attr", b, name, 0))]
        c = self.cls_of(b, st)
        if c is not None:
            r = self.p.lookup(c, name)
            if r and r[0] == "method" and self.exact(b):
                f = r[1]
                if f.kind == "property":
                    if self.cfg.is_opaque(f) or self.looping(f.qual, st):
                        return [(st, ("attr", b, name, self.fver(name, st)))]
                    return self.inline(f, b, [], [], st, ctx, node)
                if f.kind == "static":
                    return [(st, ("fn", f.qual))]
                if f.kind == "class":
                    return [(st, ("bound", ("type", b), f.qual))]
                return [(st, ("bound", b, f.qual))]
            if r and r[0] == "attr" and not self.stored_attr(name):
                v = self.static_const(r[1], r[2].module)
                if v is not None:
                    return [(st, v)]
                if isinstance(r[1], ast.Call) and self.is_group(c):
                    t = ("attr", b, name, 0)
                    return [(st, t)]
                own = ("cls", r[2].qual)
                if (own, name) in st.heap:
                    return [(st, st.heap[(own, name)])]
                return [(st, ("attr", own, name, self.fver(name, st)))]
        return [(st, ("attr", b, name, self.fver(name, st, b)))]

    def stored_attr(self, name):
        return name in self.p.attr_stores

    def selfcls_of(self, t, st):
        if t[0] == "cls":
            return self.p.classes.get(t[1])
        return self.cls_of(t, st)

    def fver(self, name, st, b=None):
        v = 0
        if name in self.p.nonfinal and name not in self.cfg.preserve:
            v = st.epoch
        if b is not None and ("fld", b, name) in st.cver:
            v = (v, st.cver[("fld", b, name)])
        return v

    def e_Subscript(self, e, st, ctx):
        def f(s, xs):
            return self.getitem(xs[0], xs[1], s, ctx, e)
        return self.then(self.seq([e.value, e.slice], st, ctx), f)

    def e_Slice(self, e, st, ctx):
        parts = [e.lower, e.upper, e.step]

        def f(s, xs):
            xs = list(xs)
            r = []
            for p in parts:
                r.append(xs.pop(0) if p is not None else NONE)
            if r[2] == C(1):
                r[2] = NONE
            if r[0] == C(0) and (r[2] == NONE or is_const(r[2]) and type(cval(r[2])) is int and cval(r[2]) > 0):
                r[0] = NONE
            return [(s, ("slice3", *r))]
        return self.then(self.seq([p for p in parts if p is not None], st, ctx), f)

    def getitem(self, b, k, st, ctx, node):
        if b[0] == "type" or b[0] == "cls":
            return [(st, b)]
        if b[0] == "ext" and b[1].split(".")[0] in ("typing", "collections", "builtins"):
            return [(st, b)]
        if k[0] == "slice3" and b[0] == "attr":
            self.emit(st, Ev("snap", "[:]", recv=b, node=node, func=ctx.func))
        c = self.cls_of(b, st)
        if c is not None and self.exact(b):
            r = self.p.lookup(c, "__getitem__")
            if r and r[0] == "method" and not self.cfg.is_opaque(r[1]):
                return self.call(("bound", b, r[1].qual), [k], [], st, ctx, node)
        if b[0] == "super":
            return [(st, ("item", b, k, st.epoch))]
        if (b, k) in st.sel:
            return [(st, st.sel[(b, k)])]
        if k[0] == "slice3" and b[0] == "tuple" and not any(x[0] == "star" for x in b[1]):
            sl = as_slice(k)
            if sl is not None:
                return [(st, ("tuple", b[1][sl]))]
        if k[0] == "slice3" and k[1] == NONE and k[2] == NONE and k[3] == NONE and b[0] == "tuple":
            return [(st, b)]
        if b[0] == "dict":
            el = st.heap.get((b, "$elts"))
            if el is not None and all(x[0] == "item" for x in el):
                return self.dict_lookup(b, el, k, None, st, ctx, node)
        if b[0] == "list" and is_const(k) and isinstance(cval(k), int):
            el = st.heap.get((b, "$elts"))
            if el is not None and all(x[0] == "item" for x in el):
                try:
                    return [(st, el[cval(k)][1])]
                except IndexError:
                    pass
        ty = self.type_of(b, st)
        if ty and ty[0] in ("defaultdict",):
            self.emit(st, Ev("read", "[]", recv=b, args=[k], node=node, func=ctx.func))
        t = self.item_term(b, k, st)
        if self.may_raise(st) and b[0] not in ("tuple", "nt") and t[0] == "item":
            s2 = st.fork()
            self.check_cap()
            return [(st, t), (s2, Raised(("exc", ext("builtins.LookupError"), s2.uid(node))))]
        return [(st, t)]

    def dict_lookup(self, b, el, k, default, st, ctx, node):
        items = [(x[1][1][0], x[1][1][1]) for x in el]
        out = []
        live = [st]
        for kk, vv in reversed(items):
            nxt = []
            for s in live:
                for s2, m in self.branch(s, ("op", "==", k, kk), node):
                    if m:
                        out.append((s2, vv))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            if default is not None:
                out.append((s, default))
            else:
                out.append((s, Raised(("exc", ext("builtins.KeyError"), s.uid(node)))))
        return out

    # -- comprehensions

    def e_ListComp(self, e, st, ctx):
        kind = {"ListComp": "list", "SetComp": "set", "GeneratorExp": "list"}[type(e).__name__]
        acc = self.new_local(kind, (), st, e)

        def leaf(s):
            def f(s2, v):
                s2.heap[(acc, "$elts")] = (*s2.heap.get((acc, "$elts"), ()), ("item", v))
                return [(s2, "next", None)]
            return self.lift(self.ev(e.elt, s, ctx), f)
        return self.comp(e.generators, leaf, st, ctx, e, acc)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st, ctx):
        acc = self.new_local("dict", (), st, e)

        def leaf(s):
            def f(s2, kv):
                s2.heap[(acc, "$elts")] = (*s2.heap.get((acc, "$elts"), ()),
                                           ("item", ("tuple", tuple(kv))))
                return [(s2, "next", None)]
            return self.lift(self.seq([e.key, e.value], s, ctx), f)
        return self.comp(e.generators, leaf, st, ctx, e, acc)

    def comp(self, gens, leaf, st, ctx, node, acc):
        saved = dict(st.frames[ctx.fid])
        out = []
        for s, k, v in self.comp_loops(gens, leaf, st, ctx, node):
            fr = s.frames[ctx.fid]
            tgts = set()
            for g in gens:
                tgts |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for n in tgts:
                if n in saved:
                    fr[n] = saved[n]
                else:
                    fr.pop(n, None)
            if k == "raise":
                out.append((s, Raised(v)))
            else:
                out.append((s, acc))
        return out

    def comp_loops(self, gens, leaf, st, ctx, node):
        g = gens[0]

        def body(s):
            live = [s]
            out = []
            for c in g.ifs:
                nxt = []
                for s1 in live:
                    for s2, v in self.ev_cond(c, s1, ctx):
                        if type(v) is Raised:
                            out.append((s2, "raise", v.exc))
                        elif v:
                            nxt.append(s2)
                        else:
                            out.append((s2, "next", None))
                live = nxt
            for s1 in live:
                if len(gens) > 1:
                    out.extend(self.comp_loops(gens[1:], leaf, s1, ctx, node))
                else:
                    out.extend(leaf(s1))
            return out

        def f(s, it):
            return self.iterate(it, s, ctx, g.iter, lambda s2, v: self.assign(g.target, v, s2, ctx),
                                body)
        return self.lift(self.ev(g.iter, st, ctx), f)

    def search(self, e, st, ctx, node, hit, miss):
        """any()/all()/next() over a generator expression: stop at the first hit."""
        def leaf(s):
            return self.lift(self.ev(e.elt, s, ctx), hit)
        out = []
        saved = dict(st.frames[ctx.fid])
        for s, k, v in self.comp_loops(e.generators, leaf, st, ctx, node):
            fr = s.frames[ctx.fid]
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        if n.id in saved:
                            fr[n.id] = saved[n.id]
                        else:
                            fr.pop(n.id, None)
            if k == "ret":
                out.append((s, v))
            elif k == "raise":
                out.append((s, Raised(v)))
            else:
                out.extend(miss(s))
        return out

    def e_Await(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_Starred(self, e, st, ctx):
        return self.then(self.ev(e.value, st, ctx), lambda s, v: [(s, ("star", v))])

    def e_Yield(self, e, st, ctx):
        def f(s, v):
            if ctx.yh is not None:
                return ctx.yh(s, v, e)
            self.emit(s, Ev("yield", args=[v], node=e, func=ctx.func))
            return self.user_effect(s, ctx, e, ("unk", "sent", s.uid(e)))
        if e.value is None:
            return f(st, NONE)
        return self.then(self.ev(e.value, st, ctx), f)

    def e_YieldFrom(self, e, st, ctx):
        def f(s, it):
            def body_bind(s2, v):
                s2.frames[ctx.fid]["$yf"] = v
                return [(s2, "next", None)]

            def body(s2):
                v = s2.frames[ctx.fid].get("$yf", NONE)
                if ctx.yh is not None:
                    return [(s3, "next", None) if type(r) is not Raised else (s3, "raise", r.exc)
                            for s3, r in ctx.yh(s2, v, e)]
                self.emit(s2, Ev("yield", args=[v], node=e, func=ctx.func))
                return [(s2, "next", None)]
            return [(s3, NONE) if k == "next" else (s3, Raised(v))
                    for s3, k, v in self.iterate(it, s, ctx, e, body_bind, body)
                    if k in ("next", "raise")]
        return self.then(self.ev(e.value, st, ctx), f)

    # ------------------------------------------------------------------ calls

    def e_Call(self, e, st, ctx):
        # lazily consumed generator expressions
        if isinstance(e.func, ast.Name) and e.args and isinstance(e.args[0], ast.GeneratorExp) \
                and e.func.id in ("any", "all", "next") and not self.shadowed(e.func.id, st, ctx):
            g = e.args[0]
            if e.func.id in ("any", "all"):
                want = e.func.id == "any"

                def hit(s, v):
                    out = []
                    for s2, b in self.truthy(v, s, ctx, e):
                        if type(b) is Raised:
                            out.append((s2, "raise", b.exc))
                        elif b == want:
                            out.append((s2, "ret", C(want)))
                        else:
                            out.append((s2, "next", None))
                    return out
                return self.search(g, st, ctx, e, hit, lambda s: [(s, C(not want))])

            def miss(s):
                if len(e.args) > 1:
                    return self.ev(e.args[1], s, ctx)
                return [(s, Raised(("exc", ext("builtins.StopIteration"), s.uid(e))))]
            return self.search(g, st, ctx, e, lambda s, v: [(s, "ret", v)], miss)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if ctx.cls is not None and ctx.selft is not None:
                return [(st, ("super", ctx.selft, ctx.cls.qual))]
            c = ctx.parent
            while c is not None:
                if c.cls is not None and c.selft is not None:
                    return [(st, ("super", c.selft, c.cls.qual))]
                c = c.parent
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2:
            def fsup(s, xs):
                q = xs[0][1] if xs[0][0] == "cls" else (ctx.cls.qual if ctx.cls else None)
                return [(s, ("super", xs[1], q) if q else ("unk", "super", s.uid(e)))]
            return self.then(self.seq(e.args, st, ctx), fsup)

        def f(s, fn):
            def g(s2, args):
                def h(s3, kvs):
                    kw = []
                    for kwd, v in zip(e.keywords, kvs):
                        if kwd.arg is None:
                            if v[0] == "dict" and (v, "$elts") in s3.heap and all(
                                    x[0] == "item" and is_const(x[1][1][0])
                                    for x in s3.heap[(v, "$elts")]):
                                for x in s3.heap[(v, "$elts")]:
                                    kw.append((cval(x[1][1][0]), x[1][1][1]))
                            else:
                                kw.append(("**", v))
                        else:
                            kw.append((kwd.arg, v))
                    return self.call(fn, list(args), kw, s3, ctx, e)
                return self.then(self.seq([k.value for k in e.keywords], s2, ctx), h)
            return self.then(self.seq(e.args, s, ctx), g)
        return self.then(self.ev(e.func, st, ctx), f)

    def shadowed(self, n, st, ctx):
        c = ctx
        while c is not None:
            if n in st.frames.get(c.fid, {}):
                return True
            c = c.parent
        r = self.p.resolve_name(ctx.module, n)
        return not (r and r[0] == "ext" and r[1] == f"builtins.{n}")

    def call(self, fn, args, kw, st, ctx, node):
        k = fn[0]
        if k == "partial":
            return self.call(fn[1], list(fn[2]) + args, list(fn[3]) + kw, st, ctx, node)
        if k == "bound":
            f = self.p.funcs[fn[2]]
            return self.call_func(f, fn[1], args, kw, st, ctx, node, fn)
        if k == "fn":
            f = self.p.funcs[fn[1]]
            return self.call_func(f, None, args, kw, st, ctx, node, fn)
        if k == "closure":
            n, _ = self.closures[fn[1]]
            from .program import contains_yield
            if not isinstance(n, ast.Lambda) and contains_yield(n):
                return [(st, ("gencall", fn[1], None, tuple(args), tuple(kw), st.uid(node)))]
            if self.looping(fn[1], st) or len(st.stack) > self.cfg.depth:
                return self.opaque(fn, args, kw, st, ctx, node)
            return self.inline_closure(fn, args, kw, st, ctx, node)
        if k == "cls":
            return self.construct(fn, args, kw, st, ctx, node)
        if k == "type":
            ty = self.type_of(fn[1], st)
            res = ("call", fn, tuple(args), tuple(kw), st.uid(node))
            if ty:
                self.types[res] = ty
            self.emit(st, Ev("call", "__new__", recv=fn, fn=fn, args=args, kw=kw, res=res,
                             node=node, func=ctx.func))
            return self.user_effect(st, ctx, node, res)
        if k == "ext":
            return self.call_ext(fn, args, kw, st, ctx, node)
        ty = self.type_of(fn, st)
        if ty and self.is_signal_inst(ty[0]):
            return self.method(fn, "emit", args, kw, st, ctx, node)
        if k == "attr":
            alts = self.field_alternatives(fn, st)
            if alts:
                out = []
                for i, (conds, val) in enumerate(alts):
                    s = st.fork() if i < len(alts) - 1 else st
                    ok = True
                    for a, p, nd in conds:
                        d = s.facts.decide(a)
                        if d is None:
                            s.facts.add(a, p, nd)
                        elif d != p:
                            ok = False
                            break
                    if ok:
                        out.extend(self.call(val, list(args), list(kw), s, ctx, node))
                return out
            return self.method(fn[1], fn[2], args, kw, st, ctx, node, fn)
        if k == "obj":
            c = self.p.classes.get(fn[2])
            r = self.p.lookup(c, "__call__") if c else None
            if r and r[0] == "method":
                return self.call_func(r[1], fn, args, kw, st, ctx, node, fn)
        return self.opaque(fn, args, kw, st, ctx, node)

    def field_alternatives(self, fn, st):
        """A callable stored in a field by the constructor: its possible values."""
        b, name = fn[1], fn[2]
        if b != ("param", "self") or name in self.p.nonfinal:
            return None
        c = self.cls_of(b, st)
        if c is None:
            return None
        r = self.p.lookup(c, name)
        if r and r[0] == "method":
            return None
        if name not in self.p.attr_stores:
            return None
        summ = self.ctor_summary(c)
        return summ.get(name)

    def ctor_summary(self, c):
        """field -> [(facts, value)] for callables stored by __init__ (values over self)."""
        if c.qual in self._ctor_cache:
            return self._ctor_cache[c.qual]
        self._ctor_cache[c.qual] = {}
        r = self.p.lookup(c, "__init__")
        if not r or r[0] != "method":
            return {}
        sub = Engine(self.p, Config(opaque=self.cfg.opaque, cap=2000))
        sub._ctor_cache = self._ctor_cache
        paths = [p for p in sub.run(r[1], c) if p.kind == "ret"]
        self.closures.update(sub.closures)
        out = {}
        SELF = ("param", "self")
        for p in paths:
            rev = {}
            for (b, n), v in p.st.heap.items():
                if b == SELF and not n.startswith("$") and v[0] not in ("const", "param"):
                    rev.setdefault(v, ("attr", SELF, n, 0))
            for (b, n), v in p.st.heap.items():
                if b != SELF or n.startswith("$"):
                    continue
                if v[0] not in ("bound", "closure", "fn", "partial"):
                    continue
                conds = []
                for a, pol, nd in p.facts:
                    a2 = subst(a, rev)
                    if any(x[0] == "param" and x != SELF for x in walk(a2)):
                        # conditions on constructor arguments that reached a field
                        mp = {vv: ("attr", SELF, nn, 0) for (bb, nn), vv in p.st.heap.items()
                              if bb == SELF and vv[0] == "param"}
                        a2 = subst(a2, mp)
                    if any(x[0] in ("param", "call", "lv") and x != SELF for x in walk(a2)):
                        continue
                    conds.append((a2, pol, nd))
                ent = (tuple(conds), v)
                lst = out.setdefault(n, [])
                if all((tuple((a, q) for a, q, _ in e[0]), e[1])
                       != (tuple((a, q) for a, q, _ in conds), v) for e in lst):
                    lst.append(ent)
        self._ctor_cache[c.qual] = out
        return out

    def opaque(self, fn, args, kw, st, ctx, node, name=None, recv=None, pure=False):
        res = ("call", fn, tuple(args), tuple(kw), st.uid(node))
        if name is None:
            name = {"attr": lambda: fn[2], "bound": lambda: fn[2].split(".")[-1],
                    "fn": lambda: fn[1].split(".")[-1]}.get(fn[0], lambda: "")()
        if recv is None and fn[0] in ("attr", "bound"):
            recv = fn[1]
        for a in args:
            self.escape(a, st)
        for _, a in kw:
            self.escape(a, st)
        self.opaque_calls += 1
        ev = Ev("call", name, recv=recv, fn=fn, args=args, kw=kw, res=res, node=node,
                func=ctx.func)
        self.emit(st, ev)
        if pure:
            return [(st, res)]
        out = self.user_effect(st, ctx, node, res)
        if len(out) > 1:
            s2, r = out[1]
            ev2 = Ev("call", name, recv=recv, fn=fn, args=args, kw=kw, res=None, node=node,
                     func=ctx.func, extra={"raised": r.exc})
            ev2.locks, ev2.epoch, ev2.nfacts = ev.locks, ev.epoch, ev.nfacts
            s2.events[-1] = ev2
        return out

    def looping(self, qual, st):
        return st.stack.count(qual) >= self.cfg.recurse

    def call_func(self, f, selft, args, kw, st, ctx, node, fn):
        if f.is_ctx:
            return [(st, ("ctxcall", f.qual, selft, tuple(args), tuple(kw), st.uid(node)))]
        if self.cfg.is_opaque(f) or self.looping(f.qual, st) or len(st.stack) > self.cfg.depth:
            res = self.opaque(fn, args, kw, st, ctx, node, name=f.name)
            t = self.anno_type(f.node.returns, f.module)
            if t:
                for s, r in res:
                    if type(r) is not Raised:
                        self.types[r] = t
            return res
        if f.is_gen:
            return [(st, ("gencall", f.qual, selft, tuple(args), tuple(kw), st.uid(node)))]
        if any(isinstance(k, str) and k.split(".")[-1] in ("cache", "lru_cache")
               for k in f.decorators):
            return self.opaque(fn, args, kw, st, ctx, node, name=f.name, pure=True)
        return self.inline(f, selft, args, kw, st, ctx, node)

    def bind_params(self, a, args, kw, env, st, defaults, skip=0):
        """Bind arguments to an ast.arguments; returns False when statically impossible."""
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        vals = list(args)
        extra = []
        i = 0
        star_seen = False
        while vals:
            v = vals[0]
            if v[0] == "star":
                star_seen = True
                break
            if i < len(names):
                env[names[i]] = v
                i += 1
                vals.pop(0)
            else:
                break
        if star_seen:
            src = vals[0][1]
            j = 0
            while i < len(names) and not any(n == names[i] for n, _ in kw):
                env[names[i]] = self.item_term(src, C(j), st)
                i += 1
                j += 1
            if a.vararg:
                extra = vals if j == 0 else [("star", ("slice", src, C(j), NONE, NONE, 0))]
        else:
            extra = vals
        kwx = []
        allnames = set(names) | {x.arg for x in a.kwonlyargs}
        for n, v in kw:
            if n in allnames:
                env[n] = v
            else:
                kwx.append((n, v))
        spread = [v for n, v in kwx if n == "**"]
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        dvals = list(defaults)
        for n in dn:
            d = dvals.pop(0) if dvals else NONE
            if n not in env:
                env[n] = ("item", spread[0], C(n), 0) if spread and not a.kwarg else d
        for x, d0 in zip(a.kwonlyargs, a.kw_defaults):
            d = None
            if d0 is not None:
                d = dvals.pop(0) if dvals else NONE
            if x.arg not in env:
                env[x.arg] = d if d is not None else ("unk", "missing", x.arg)
        for n in names:
            if n not in env:
                env[n] = ("item", spread[0], C(n), 0) if spread else ("unk", "missing", n)
        if a.vararg:
            if len(extra) == 1 and extra[0][0] == "star":
                env[a.vararg.arg] = extra[0][1]
            else:
                env[a.vararg.arg] = ("tuple", tuple(extra))
        if a.kwarg:
            if len(kwx) == 1 and kwx[0][0] == "**":
                env[a.kwarg.arg] = kwx[0][1]
            else:
                ent = [("spread", v) if n == "**" else ("item", tup(C(n), v)) for n, v in kwx]
                t = ("dict", st.uid(None, "kw"))
                st.heap[(t, "$elts")] = tuple(ent)
                env[a.kwarg.arg] = t
        return True

    def inline(self, f, selft, args, kw, st, ctx, node, yh=None):
        self.inlined.add(f.qual)
        a = f.node.args
        env = {}
        skip = 0
        if f.cls is not None and f.kind != "static" and selft is not None:
            first = (a.posonlyargs + a.args)
            if first:
                env[first[0].arg] = selft
                skip = 1
        st.uniq += 1
        fid = ("f", f.qual, st.uniq)
        dctx = Ctx(f.qual, f.module, f.cls, fid, selft)
        dfl = []
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            v = self.static_const(d, f.module)
            if v is None:
                v = self.default_term(d, f)
            dfl.append(v)
        self.bind_params(a, args, kw, env, st, dfl, skip)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(x.arg)
            if v and x.annotation is not None and v[0] in ("call", "item", "elem", "attr") \
                    and self.type_of(v, st) is None:
                t = self.anno_type(x.annotation, f.module)
                if t and t[0] in self.p.classes:
                    self.types[v] = t
        return self.run_body(f.node.body, env, fid, Ctx(f.qual, f.module, f.cls, fid, selft, yh),
                             st, f.qual)

    def default_term(self, d, f):
        dd = dotted(d)
        if dd:
            r = self.p.resolve_dotted(f.module, dd)
            if r and r[0] == "glob":
                return ("glob", r[1])
            if r:
                return (r[0], r[1])
        if isinstance(d, ast.Tuple) and not d.elts:
            return ("tuple", ())
        return ("unk", "default", ast.dump(d)[:60])

    def run_body(self, body, env, fid, ctx, st, qual):
        old = st.stack
        st.frames[fid] = env
        st.stack = (*old, qual)
        out = []
        for s, k, v in self.block(body, st, ctx):
            s.stack = old
            if not self.keep_frame(s, fid):
                s.frames.pop(fid, None)
            if k == "ret":
                out.append((s, v))
            elif k == "next":
                out.append((s, NONE))
            elif k == "raise":
                out.append((s, Raised(v)))
        return out

    def keep_frame(self, st, fid):
        return any(c[1].fid == fid for c in self.closures.values())

    def inline_closure(self, fn, args, kw, st, ctx, node, yh=None):
        n, dctx = self.closures[fn[1]]
        st.uniq += 1
        fid = ("f", fn[1], st.uniq)
        env = {}
        dv = st.heap.get((fn, "$defaults"), ("tuple", ()))[1]
        self.bind_params(n.args, args, kw, env, st, dv)
        c2 = Ctx(dctx.func + ("." + n.name if hasattr(n, "name") else ".<lambda>"), dctx.module,
                 None, fid, None, yh, parent=dctx)
        if isinstance(n, ast.Lambda):
            st.frames[fid] = env
            old = st.stack
            st.stack = (*old, fn[1])
            out = []
            for s, v in self.ev(n.body, st, c2):
                s.stack = old
                out.append((s, v))
            return out
        return self.run_body(n.body, env, fid, c2, st, fn[1])

    def construct(self, fn, args, kw, st, ctx, node):
        c = self.p.classes[fn[1]]
        if any(isinstance(m, str) and m.split(".")[-1] == "NamedTuple" for m in c.mro):
            names = [n.target.id for n in c.node.body
                     if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
            vals = list(args)
            kd = dict(kw)
            for n in names[len(vals):]:
                vals.append(kd.get(n, NONE))
            if not any(v[0] == "star" for v in vals):
                return [(st, ("nt", c.qual, tuple(vals)))]
        obj = ("obj", st.uid(node, "o"), c.qual)
        self.emit(st, Ev("alloc", c.name, recv=obj, fn=fn, args=args, kw=kw, res=obj, node=node,
                         func=ctx.func))
        r = self.p.lookup(c, "__init__")
        opq = self.cfg.opaque_classes
        is_opaque = False
        if opq is not None:
            is_opaque = opq(c) if callable(opq) else (c.name in opq)
        elif self.is_group(c):
            is_opaque = True
        isexc = any((isinstance(m, str) and m.split(".")[-1].endswith(("Exception", "Error")))
                    for m in c.mro)
        if isexc or is_opaque or not r or r[0] != "method" or c.qual in st.stack \
                or len(st.stack) > self.cfg.depth or self.cfg.is_opaque(r[1]):
            for a in list(args) + [v for _, v in kw]:
                self.escape(a, st)
            if r and r[0] == "method":
                env = {}
                a = r[1].node.args
                try:
                    self.bind_params(a, args, kw, env, st, [
                        self.static_const(d, r[1].module) or self.default_term(d, r[1])
                        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]],
                        1)
                    st.heap[(obj, "$args")] = ("tuple", tuple(
                        ("tuple", (C(n), v)) for n, v in sorted(env.items())))
                except Exception:
                    pass
            return [(st, obj)]
        return self.then(self.inline(r[1], obj, args, kw, st, ctx, node),
                         lambda s, _: [(s, obj)])

    # -- method calls on opaque receivers / containers

    def method(self, b, name, args, kw, st, ctx, node, fn=None):
        fn = fn or ("attr", b, name, 0)
        ty = self.type_of(b, st)
        tn = ty[0] if ty else None
        if b[0] in ("exc", "obj") and name == "with_traceback":
            return [(st, b)]
        if tn in self.p.classes:
            c = self.p.classes[tn]
            r = self.p.lookup(c, name)
            if r and r[0] == "method":
                f = r[1]
                if (self.exact(b) or tn in self.cfg.inline_types
                        or c.name in self.cfg.inline_types):
                    return self.call_func(f, b, args, kw, st, ctx, node, ("bound", b, f.qual))
                # normalise arguments against the declared signature
                args, kw = self.canon_args(f, args, kw, st)
                if name == "__call__" and self.is_signal_inst(tn):
                    name = "emit"
                return self.opaque(("attr", b, name, 0), args, kw, st, ctx, node, name=name,
                                   recv=b)
            return self.opaque(fn, args, kw, st, ctx, node, name=name, recv=b)
        if tn in LOCKS and name in ("acquire", "release", "__enter__", "__exit__"):
            if name in ("acquire", "__enter__"):
                st.locks = (*st.locks, b)
                self.emit(st, Ev("acquire", recv=b, node=node, func=ctx.func))
            else:
                self.emit(st, Ev("release", recv=b, node=node, func=ctx.func))
                if b in st.locks:
                    i = len(st.locks) - 1 - st.locks[::-1].index(b)
                    st.locks = st.locks[:i] + st.locks[i + 1:]
            return [(st, TRUE)]
        if b[0] in ("list", "set", "dict") and (b, "$elts") in st.heap:
            r = self.local_method(b, name, args, kw, st, ctx, node)
            if r is not None:
                return r
        if tn in ("dict", "Mapping", "MappingProxyType", "defaultdict", "MutableMapping",
                  "OrderedDict") or (b[0] in ("param", "attr", "item", "call") and not args
                                     and not kw and name in ("items", "values", "keys")
                                     and tn is None):
            if name in ("items", "values", "keys") and not args:
                return [(st, ("view", name, b))]
            if name == "get" and args:
                return self.dict_get(b, args, st, ctx, node)
        if b[0] == "slice3" and name == "indices" and not kw and len(args) == 1:
            sl = as_slice(b)
            if sl is not None and is_const(args[0]) and type(cval(args[0])) is int and cval(args[0]) >= 0:
                return [(st, ("tuple", tuple(map(C, sl.indices(cval(args[0]))))))]
        if b[0] == "const" and isinstance(b[2], str) and name in STRFOLD and not kw and all(
                is_const(a) for a in args):
            try:
                return [(st, C(getattr(b[2], name)(*map(cval, args))))]
            except Exception:
                pass
        if b[0] == "cls" and name == "__new__" and args and args[0][0] == "cls" and \
                args[0][1] in self.p.classes and (self.p.lookup(
                    self.p.classes[args[0][1]], "__new__") or ("extbase",))[0] == "extbase" and (
                    ctx.func.startswith(PKG + ".client") or self.p.lookup(
                        self.p.classes[args[0][1]], "__new__") is None):
            q = args[0][1]
            obj = ("obj", st.uid(node, "o"), q)
            self.emit(st, Ev("alloc", self.p.classes[q].name, recv=obj, fn=args[0], res=obj,
                             node=node, func=ctx.func, extra={"noinit": True}))
            return [(st, obj)]
        if tn == "str" or b[0] == "const":
            return [(st, ("call", ("attr", b, name, 0), tuple(args), tuple(kw), 0))]
        if tn is None and self.nonblocking_get(name, args, kw):
            tn = "Queue"
        if tn in CONTAINERS:
            return self.container_method(b, tn, name, args, kw, st, ctx, node, fn)
        if name in ("get",) and tn is None and len(args) in (1, 2) and b[0] in (
                "attr", "param", "item", "glob"):
            return self.dict_get(b, args, st, ctx, node)
        if b[0] == "ext":
            return self.call_ext(("ext", f"{b[1]}.{name}"), args, kw, st, ctx, node)
        if b[0] == "super" and name == "__setattr__" and len(args) == 2 and is_const(args[0]) and \
                isinstance(cval(args[0]), str) and b[1][0] == "obj":
            nm, v = cval(args[0]), args[1]
            if not nm.startswith("_"):  # the base may store something made from the value
                v = ("call", ext("stored"), (v,), (), 0)
            out = []
            if self.may_raise(st):
                s2 = st.fork()
                out.append((s2, Raised(("exc", None, s2.uid(node)))))
            self.emit(st, Ev("store", nm, recv=b[1], args=[v], node=node, func=ctx.func,
                             extra={"super": True}))
            st.heap[(b[1], nm)] = v
            self.mutate(("fld", b[1], nm), st)
            return [(st, NONE), *out]
        if b[0] == "super" and name in SUPER_MUTATES:
            self.mutate(b[1], st)
        return self.opaque(fn, args, kw, st, ctx, node, name=name, recv=b)

    def canon_args(self, f, args, kw, st):
        """Positional arguments of opaque repo methods keep names via keywords when given."""
        return args, kw

    def dict_get(self, b, args, st, ctx, node):
        """d.get(k[, default]) as a membership branch."""
        k = args[0]
        dflt = args[1] if len(args) > 1 else NONE
        if (b, k) in st.sel:
            return [(st, st.sel[(b, k)])]
        out = []
        for s, m in self.branch(st, ("op", "in", k, b, self.ver(b, st)) if self.mutable(b, st)
                                else ("op", "in", k, b), node):
            if m:
                out.append((s, self.item_term(b, k, s)))
            else:
                out.append((s, dflt))
        return out

    @staticmethod
    def nonblocking_get(name, args, kw):
        return name == "get_nowait" or name == "get" and (
            dict(kw).get("block") == FALSE or (args and args[0] == FALSE) or "timeout" in dict(kw))

    def container_method(self, b, tn, name, args, kw, st, ctx, node, fn):
        out = []
        queue = tn in ("Queue", "SimpleQueue")
        mut = name in MUTATORS or (queue and name == "get")
        excn = RAISES.get(name, "")
        if queue and self.nonblocking_get(name, args, kw):
            s2 = st.fork()
            self.check_cap()
            self.emit(s2, Ev("call", name, recv=b, fn=fn, args=args, kw=kw, node=node,
                             func=ctx.func, extra={"raised": True}))
            out.append((s2, Raised(("exc", ext("queue.Empty"), s2.uid(node)))))
        if excn != "" and self.may_raise(st) and not (name == "pop" and len(args) > 1):
            if excn is None:
                excn = "LookupError"
            s2 = st.fork()
            self.check_cap()
            ev = Ev("call", name, recv=b, fn=fn, args=args, kw=kw, node=node, func=ctx.func,
                    extra={"raised": True})
            self.emit(s2, ev)
            out.append((s2, Raised(("exc", ext("builtins." + excn), s2.uid(node)))))
        if mut:
            for a in args:
                self.escape(a, st)
            for key in [q for q in st.sel if q[0] == b]:
                del st.sel[key]
        if name in ("pop", "setdefault") and tn in ("dict", "defaultdict", "OrderedDict") \
                and len(args) > 1:
            for s, m in self.branch(st, ("op", "in", args[0], b, self.ver(b, st)), node):
                v0 = self.item_term(b, args[0], s)
                self.emit(s, Ev("call", name, recv=b, fn=fn, args=args, kw=kw, node=node,
                                func=ctx.func, res=v0 if m else args[1], extra={"hit": m}))
                if name == "pop" or not m:
                    self.mutate(b, s)
                out.insert(0, (s, v0 if m else args[1]))
            return out
        if name == "pop" and tn in ("dict", "defaultdict", "OrderedDict"):
            res = self.item_term(b, args[0], st)
        elif name == "popleft":
            res = self.item_term(b, C(0), st)
        elif name == "pop" and tn in ("list", "deque"):
            res = self.item_term(b, args[0] if args else C(-1), st)
        elif name in ("append", "extend", "clear", "insert", "remove", "add", "discard", "put",
                      "update", "sort", "reverse", "appendleft"):
            res = NONE
        elif name in ("copy",) and not args:
            res = ("call", fn, (), (), 0)
            self.emit(st, Ev("snap", name, recv=b, node=node, func=ctx.func))
        elif mut:
            res = ("call", fn, tuple(args), tuple(kw), st.uid(node))
        else:
            res = ("call", ("attr", b, name, 0), tuple(args), tuple(kw), self.ver(b, st))
        if mut:
            self.mutate(b, st)
        self.emit(st, Ev("call", name, recv=b, fn=fn, args=args, kw=kw, res=res, node=node,
                         func=ctx.func, extra={"container": tn}))
        out.insert(0, (st, res))
        return out

    def of_range(self, e, st):
        """Is a summarised part of a local list made by looping over a range?"""
        if e[0] != "each":
            return False
        if e[2][0] == "call" and e[2][1] == ext("builtins.range"):
            return True
        el = st.heap.get((e[2], "$elts")) if e[2][0] == "list" else None
        return bool(el) and all(self.of_range(k, st) for k in el)

    def local_method(self, b, name, args, kw, st, ctx, node):
        el = st.heap[(b, "$elts")]
        if name in ("append", "add") and len(args) == 1:
            if name == "append" or ("item", args[0]) not in el:
                st.heap[(b, "$elts")] = (*el, ("item", args[0]))
            self.mutate(b, st)
            self.emit(st, Ev("call", name, recv=b, args=args, node=node, func=ctx.func,
                             extra={"local": True}))
            return [(st, NONE)]
        if name in ("extend", "update") and len(args) == 1 and not kw:
            src = args[0]
            def f(s, m):
                e2 = s.heap[(b, "$elts")]
                if m[0] in ("list", "set", "dict") and (m, "$elts") in s.heap:
                    s.heap[(b, "$elts")] = (*e2, *s.heap[(m, "$elts")])
                elif m[0] == "tuple":
                    s.heap[(b, "$elts")] = (*e2, *[("spread", x[1]) if x[0] == "star" else ("item", x) for x in m[1]])
                else:
                    s.heap[(b, "$elts")] = (*e2, ("spread", m))
                self.mutate(b, s)
                self.emit(s, Ev("call", name, recv=b, args=[m], node=node, func=ctx.func,
                                extra={"local": True}))
                return [(s, NONE)]
            return self.then(self.materialise(src, st, ctx, node), f)
        if name in ("values", "items", "keys") and b[0] == "dict":
            return [(st, ("view", name, b))]
        if name == "get" and b[0] == "dict" and args and all(x[0] == "item" for x in el):
            return self.dict_lookup(b, el, args[0], args[1] if len(args) > 1 else NONE, st, ctx,
                                    node)
        if name == "copy":
            return [(st, self.new_local(b[0], el, st, node))]
        r = self.exact_op(b, el, name, args, kw, st, ctx, node)
        if r is not None:
            return r
        if name in ("sort", "reverse") and b[0] == "list" and len(el) <= 1 and not args and all(
                e[0] == "item" or self.of_range(e, st) for e in el):
            self.mutate(b, st)      # nothing to reorder, or the order is not kept in the summary anyway
            self.emit(st, Ev("call", name, recv=b, args=args, kw=kw, node=node, func=ctx.func,
                             extra={"local": True}))
            return [(st, NONE)]
        if name == "setdefault" and b[0] == "dict" and args and not kw:
            out = []
            v = args[1] if len(args) > 1 else NONE
            for s, hit in self.branch(st, ("op", "in", args[0], b, self.ver(b, st)), node):
                res = self.item_term(b, args[0], s) if hit else v
                if not hit:
                    s.heap[(b, "$elts")] = (*s.heap[(b, "$elts")], ("item", tup(args[0], v)))
                    self.mutate(b, s)
                self.emit(s, Ev("call", name, recv=b, args=args, node=node, func=ctx.func, res=res,
                                extra={"local": True, "hit": hit}))
                out.insert(0, (s, res))
            return out
        if name in MUTATORS or name == "setdefault":
            st.heap.pop((b, "$elts"), None)
            self.mutate(b, st)
            self.emit(st, Ev("call", name, recv=b, args=args, kw=kw, node=node, func=ctx.func,
                             extra={"local": True}, res=("item", b, args[0], 0) if args and name == "pop" else None))
            return [(st, ("item", b, args[0] if args else C(-1), st.uniq) if name.startswith("pop") else NONE)]
        return None

    def exact_op(self, b, el, name, args, kw, st, ctx, node):
        """Operations on a local container whose contents are known exactly."""
        if kw or not all(x[0] == "item" for x in el):
            return None

        def done(s, new, res, raised=False):
            if new is not None:
                s.heap[(b, "$elts")] = tuple(new)
                self.mutate(b, s)
            self.emit(s, Ev("call", name, recv=b, args=args, node=node, func=ctx.func, res=res,
                            extra={"local": True, **({"raised": True} if raised else {})}))
            return res
        if name == "clear" and not args:
            return [(st, done(st, (), NONE))]
        if b[0] == "set" and name == "pop" and not args and 0 < len(el) <= 3:
            out = []
            for i, x in enumerate(el):     # (any of them may come out first)
                s = st.fork() if i + 1 < len(el) else st
                out.append((s, done(s, el[:i] + el[i + 1:], x[1])))
            return out
        if b[0] == "dict":
            if not all(is_const(x[1][1][0]) for x in el) or not args or not is_const(args[0]):
                return None
            d = {x[1][1][0]: x[1][1][1] for x in el}
            k = args[0]
            hit = k in d
            if name == "setdefault":
                v = args[1] if len(args) > 1 else NONE
                done(st, None if hit else (*el, ("item", tup(k, v))), NONE)
                return [(st, d[k] if hit else v)]
            if name in ("pop", "__delitem__"):
                if hit:
                    done(st, [x for x in el if x[1][1][0] != k], NONE)
                    return [(st, d[k] if name == "pop" else NONE)]
                if name == "pop" and len(args) > 1:
                    done(st, None, NONE)
                    return [(st, args[1])]
                done(st, None, NONE, True)
                return [(st, Raised(("exc", ext("builtins.KeyError"), st.uid(node))))]
            return None
        if b[0] == "list":
            if name in ("pop", "__delitem__") and el:
                i = cval(args[0]) if args and is_const(args[0]) else -1 if not args else None
                if isinstance(i, int) and -len(el) <= i < len(el):
                    i %= len(el)
                    v = el[i][1]
                    done(st, el[:i] + el[i + 1:], v)
                    return [(st, v)]
            if name == "insert" and len(args) == 2 and is_const(args[0]) and isinstance(
                    cval(args[0]), int):
                xs = list(el)
                xs.insert(cval(args[0]), ("item", args[1]))
                return [(st, done(st, xs, NONE))]
            if name == "reverse" and not args:
                return [(st, done(st, el[::-1], NONE))]
            if name in ("remove", "index") and len(args) == 1 and self.by_identity(args[0]) and all(
                    self.by_identity(x[1]) for x in el):
                i = next((i for i, x in enumerate(el) if x[1] == args[0]), None)
                if i is None:
                    done(st, None, NONE, True)
                    return [(st, Raised(("exc", ext("builtins.ValueError"), st.uid(node))))]
                if name == "index":
                    return [(st, done(st, None, C(i)))]
                return [(st, done(st, el[:i] + el[i + 1:], NONE))]
        return None

    def by_identity(self, t):
        """A fresh object compared by identity only."""
        if t[0] != "obj" or "#" not in str(t[1]):
            return False
        c = self.p.classes.get(t[2])
        return c is not None and self.p.lookup(c, "__eq__") is None

    def materialise(self, t, st, ctx, node):
        """Turn a repo generator call into the local list of what it yields."""
        if t[0] != "gencall":
            return [(st, t)]
        acc = self.new_local("list", (), st, node)

        def bind(s, v):
            s.heap[(acc, "$elts")] = (*s.heap.get((acc, "$elts"), ()), ("item", v))
            return [(s, "next", None)]
        return [(s, acc) if k == "next" else (s, Raised(v)) for s, k, v in
                self.iter_gen(t, st, ctx, node, bind, lambda s: [(s, "next", None)],
                              lambda s: [(s, "next", None)])]

    # -- builtins

    def call_ext(self, fn, args, kw, st, ctx, node):
        d = fn[1]
        n = d.split(".")[-1]
        if d in STDLIB and (d not in TWO or len(args) == 2 and not kw and args[0] != NONE):
            return self.call_func(self.p.stdlib(d, STDLIB[d]), None, args, kw, st, ctx, node, fn)
        m = getattr(self, "b_" + n, None)
        full = d.startswith(("builtins.", "typing.", "functools.", "contextlib.", "object."))
        if m is not None and (full or n in ("partial", "reduce", "cast", "isclass")):
            r = m(args, kw, st, ctx, node)
            if r is not None:
                return r
        if d in ("builtins.object.__setattr__", "builtins.object.__delattr__") and len(args) >= 2:
            if is_const(args[1]):
                self.emit(st, Ev("store" if "set" in d else "delattr", cval(args[1]), recv=args[0],
                                 args=args[2:], node=node, func=ctx.func))
                if "set" in d:
                    st.heap[(args[0], cval(args[1]))] = args[2]
                return [(st, NONE)]
            self.emit(st, Ev("call", n, recv=args[0], fn=fn, args=args[1:], node=node,
                             func=ctx.func))
            return [(st, NONE)]
        if d in ("operator.is_", "operator.is_not", "_operator.is_") and len(args) == 2 and not kw:
            return [(st, ("op", "is not" if "not" in n else "is", *args))]
        if d == "builtins.str" and len(args) == 1 and not kw and is_const(args[0]) and isinstance(
                cval(args[0]), (str, int)):
            return [(st, C(str(cval(args[0]))))]
        if n == "MappingProxyType" and len(args) == 1 and args[0][0] == "dict":
            return [(st, args[0])]  # a read-only view of a dict we know
        cls = getattr(builtins, n, None)
        if d.startswith("builtins.") and isinstance(cls, type) and issubclass(cls, BaseException):
            e = ("exc", fn, st.uid(node))
            st.heap[(e, "args")] = ("tuple", tuple(args))
            return [(st, e)]
        if n in ("suppress", "RLock", "Lock", "deque", "Queue", "Timer", "QTimer", "ref",
                 "finalize", "defaultdict", "Condition", "WeakValueDictionary", "WeakSet",
                 "WeakKeyDictionary", "WeakMethod", "local", "object"):
            t = ("new", d, tuple(args), tuple(kw), st.uid(node))
            if n == "suppress":
                return [(st, ("new", d, tuple(args), (), 0))]
            for a in args:
                self.escape(a, st)
            self.emit(st, Ev("call", n, fn=fn, args=args, kw=kw, res=t, node=node, func=ctx.func))
            out = [(st, t)]
            if n in ("ref", "finalize") and self.may_raise(st):
                s2 = st.fork()
                ev = s2.events[-1]
                s2.events[-1] = Ev("call", n, fn=fn, args=args, kw=kw, node=node, func=ctx.func,
                                   locks=ev.locks, epoch=ev.epoch, extra={"raised": True})
                out.append((s2, Raised(("exc", ext("builtins.TypeError"), s2.uid(node)))))
            return out
        if n in ("chain",):
            return [(st, ("call", fn, tuple(args), tuple(kw), 0))]
        if n in ("tuple", "list", "set", "frozenset", "dict", "sorted", "reversed", "enumerate",
                 "zip", "iter", "sum", "max", "min", "fromkeys"):
            return self.consume(fn, n, args, kw, st, ctx, node)
        if n in PURE or d.startswith(("typing.", "inspect.", "operator.")):
            res = ("call", fn, tuple(args), tuple(kw), 0 if n not in (
                "print", "warn", "simplefilter", "catch_warnings") else st.uid(node))
            if n in ("warn", "print", "simplefilter", "getattr"):
                self.emit(st, Ev("call", n, fn=fn, args=args, kw=kw, res=res, node=node,
                                 func=ctx.func))
            if n in ("signature", "getattr", "get_type_hints", "issubclass") and self.may_raise(st):
                s2 = st.fork()
                self.check_cap()
                return [(st, res), (s2, Raised(("exc", None, s2.uid(node, "x"))))]
            return [(st, res)]
        return self.opaque(fn, args, kw, st, ctx, node, name=n)

    def consume(self, fn, n, args, kw, st, ctx, node):
        if not args:
            if n in ("list", "set", "dict") and not kw:
                return [(st, self.new_local(n, (), st, node))]
            if n == "dict":
                return [(st, self.new_local("dict", [
                    ("spread", v) if k == "**" else ("item", tup(C(k), v)) for k, v in kw],
                    st, node))]
            if n in ("tuple", "frozenset"):
                return [(st, ("tuple", ()))]
            return [(st, ("call", fn, (), tuple(kw), 0))]

        def f(s, a0):
            if n in ("tuple", "list", "set", "dict") and a0[0] in ("view", "dict"):
                d = a0[2] if a0[0] == "view" else a0
                el = s.heap.get((d, "$elts"))
                if a0[0] == "dict" and n == "dict":
                    el = None
                if el is not None and all(e[0] == "item" and e[1][0] == "tuple" and len(
                        e[1][1]) == 2 for e in el):
                    w = {"keys": 0, "values": 1}.get(a0[1]) if a0[0] == "view" else 0
                    a0 = ("tuple", tuple(e[1] if w is None else e[1][1][w] for e in el))
            a = [a0, *args[1:]]
            if n == "dict" and len(args) == 1 and not kw and a0[0] == "tuple" and all(
                    e[0] == "tuple" and len(e[1]) == 2 for e in a0[1]):
                return [(s, self.new_local("dict", merged([("item", e) for e in a0[1]]), s, node))]
            if n == "set" and a0[0] == "tuple" and all(is_const(e) for e in a0[1]):
                return [(s, self.new_local("set", [("item", e) for e in dict.fromkeys(a0[1])], s, node))]
            if n == "tuple" and a0[0] == "tuple":
                return [(s, a0)]
            if n in ("sorted", "reversed") and len(a) == 1 and all(k == "reverse" and is_const(v) for k, v in kw):
                el = ordered(self.exact_seq(a0, s), n, any(cval(v) for _, v in kw))
                if el is not None and n == "sorted":
                    return [(s, self.new_local("list", [("item", e) for e in el], s, node))]
                if el is not None and a0[0] == "tuple":
                    return [(s, ("tuple", tuple(el)))]
            if n == "fromkeys" and not kw:
                el = a0[1] if a0[0] == "tuple" else [e[1] if e[0] == "item" else ("star",) for e in s.heap.get(
                    (a0, "$elts"), (("spread",),))] if a0[0] in ("list", "set") else [("star",)]
                if not any(e[0] == "star" for e in el) and (len(el) <= 1 or all(is_const(e) for e in el)):
                    v = args[1] if len(args) > 1 else NONE
                    return [(s, self.new_local("dict", merged([("item", tup(e, v)) for e in el]), s, node))]
            if n == "dict" and not kw and a0[0] == "dict" and (a0, "$elts") in s.heap:
                return [(s, self.new_local("dict", s.heap[(a0, "$elts")], s, node))]
            if n == "dict" and len(args) == 1 and not kw and a0[0] == "list" and (
                    a0, "$elts") in s.heap:
                el = s.heap[(a0, "$elts")]
                if all(e[0] == "item" and e[1][0] == "tuple" and len(e[1][1]) == 2 for e in el):
                    return [(s, self.new_local("dict", merged(el), s, node))]
            if n == "dict" and len(args) == 1 and not kw and (
                    a0[0] in ("param", "attr") or a0[:2] == ("op", "getattr")):
                if a0[0] == "attr":
                    self.emit(s, Ev("snap", n, recv=a0, node=node, func=ctx.func))
                return [(s, self.new_local("dict", [("spread", a0)], s, node))]
            if n in ("list", "set") and a0[0] in ("list", "set") and (a0, "$elts") in s.heap:
                el = s.heap[(a0, "$elts")]
                if n == "list" and a0[0] == "set" and all(e[0] == "item" for e in el):
                    el = el[::-1]
                return [(s, self.new_local(n, el, s, node))]
            if n == "tuple" and a0[0] in ("list", "set") and (a0, "$elts") in s.heap:
                el = s.heap[(a0, "$elts")]
                if a0[0] == "set" and all(e[0] == "item" for e in el):
                    el = el[::-1]  # (a set has no order)
                if all(e[0] in ("item", "spread") for e in el):
                    return [(s, ("tuple", tuple(e[1] if e[0] == "item" else ("star", e[1])
                                                for e in el)))]
                return [(s, self.new_local("list", el, s, node))]
            if n == "list" and a0[0] == "tuple":
                return [(s, self.new_local("list", [
                    ("spread", x[1]) if x[0] == "star" else ("item", x) for x in a0[1]], s, node))]
            c = self.cls_of(a0, s)
            if c is not None and self.exact(a0) and n in ("tuple", "list", "set", "iter", "sorted"):
                r = self.p.lookup(c, "__iter__")
                if r and r[0] == "method" and not r[1].is_gen and not self.cfg.is_opaque(r[1]) \
                        and r[1].qual not in s.stack:
                    def g(s2, v):
                        v, _, _ = self.iter_source(v, s2)
                        if n in ("tuple", "list", "set") and v[0] in ("tuple", "list", "set"):
                            return f(s2, v)
                        return [(s2, ("call", fn, (v, *a[1:]), tuple(kw), 0))]
                    return self.then(self.call(("bound", a0, r[1].qual), [], [], s, ctx, node), g)
            if n in ("enumerate", "iter", "reversed", "zip"):
                return [(s, ("call", fn, tuple(a), tuple(kw), 0))]
            v = self.ver(a0, s) if self.mutable(a0, s) else 0
            if n in ("tuple", "list", "sorted", "set", "frozenset") and a0[0] == "attr":
                self.emit(s, Ev("snap", n, recv=a0, node=node, func=ctx.func))
            return [(s, ("call", fn, tuple(a), tuple(kw), v))]
        if n in ("enumerate", "zip"):
            return f(st, args[0])
        return self.then(self.materialise(args[0], st, ctx, node), f)

    def b_isinstance(self, args, kw, st, ctx, node):
        if len(args) == 2:
            if args[0][0] in ("fn", "bound", "closure") and args[1][0] == "cls":
                return [(st, FALSE)]
            if args[0][0] == "slice3" and args[1][0] == "ext":
                return [(st, C(args[1][1] in ("builtins.slice", "builtins.object")))]
            if args[0][0] in ("fn", "bound", "closure") and args[1] in (
                    ext("types.MethodType"), ext("types.FunctionType"), ext("types.LambdaType")):
                return [(st, C((args[0][0] == "bound") == (args[1] == ext("types.MethodType"))))]
            if args[0][0] in ("fn", "bound", "closure") and args[1][0] == "ext" and args[1][1] in (
                    "functools.partial", "types.MethodWrapperType", "types.BuiltinMethodType",
                    "types.BuiltinFunctionType"):
                return [(st, FALSE)]
            if all(t[0] == "ext" and t[1] in BUILTINS for t in args):
                return [(st, C(isinstance(BUILTINS[args[0][1]], BUILTINS[args[1][1]])))]
            return [(st, ("op", "isinstance", args[0], args[1]))]

    def b_issubclass(self, args, kw, st, ctx, node):
        if len(args) == 2:
            if args[0][0] == "cls" and args[1][0] == "cls":
                return [(st, C(bool(self.p.is_subclass(args[0][1], args[1][1]))))]
            a, b = (BUILTINS.get(t[1]) if t[0] == "ext" else None for t in args)
            if a and b:
                return [(st, C(issubclass(a, b)))]
            return [(st, ("op", "issubclass", args[0], args[1]))]

    def b_isclass(self, args, kw, st, ctx, node):
        if len(args) == 1 and (args[0][0] in ("cls", "const") or args[0][0] == "ext" and
                               args[0][1] in BUILTINS):
            return [(st, C(args[0][0] != "const"))]

    def b_slice(self, args, kw, st, ctx, node):
        if 1 <= len(args) <= 3 and not kw and not any(a[0] == "star" for a in args):
            a = [NONE, args[0], NONE] if len(args) == 1 else [*args, NONE][:3]
            return [(st, ("slice3", *a))]

    def b_abs(self, args, kw, st, ctx, node):
        if len(args) == 1 and not kw and is_const(args[0]) and type(cval(args[0])) in (int, float):
            return [(st, C(abs(cval(args[0]))))]

    def b_max(self, args, kw, st, ctx, node, f=max):
        if len(args) > 1 and not kw and all(is_const(a) and type(cval(a)) is int for a in args):
            return [(st, C(f(map(cval, args))))]

    def b_min(self, args, kw, st, ctx, node):
        return self.b_max(args, kw, st, ctx, node, min)

    def b_range(self, args, kw, st, ctx, node):
        if args and not kw and all(is_const(a) and type(cval(a)) is int for a in args):
            try:
                x = range(*map(cval, args))
            except (TypeError, ValueError):
                return None
            if len(x) <= UNROLL:
                return [(st, ("tuple", tuple(map(C, x))))]

    def b_callable(self, args, kw, st, ctx, node):
        return [(st, ("op", "callable", args[0]))]

    def b_bool(self, args, kw, st, ctx, node):
        if len(args) != 1:
            return [(st, FALSE)]
        if args[0][0] == "op" and args[0][1] in ("==", "is", "in", "<", "isinstance", "callable"):
            return [(st, args[0])]
        t = self.truth_term(args[0], st)
        return [(st, t if t[0] == "op" and t[1] in ("truth", "truthv", "not") or is_const(t)
                 else ("op", "truth", t))]

    def b_cast(self, args, kw, st, ctx, node):
        if len(args) == 2:
            return [(st, args[1])]

    def b_len(self, args, kw, st, ctx, node):
        x = args[0]
        if x[0] == "tuple" and not any(y[0] == "star" for y in x[1]):
            return [(st, C(len(x[1])))]
        if x[0] in ("list", "dict", "set"):
            el = st.heap.get((x, "$elts"))
            if el is not None and all(e[0] == "item" for e in el) and x[0] == "list":
                return [(st, C(len(el)))]
            if el is not None and all(e[0] == "item" for e in el):
                ks = [e[1][1][0] if x[0] == "dict" and e[1][0] == "tuple" else e[1] for e in el]
                if len(ks) < 2 or all(is_const(k) for k in ks) and len(set(ks)) == len(ks):
                    return [(st, C(len(ks)))]
        if x[0] == "nt":
            return [(st, C(len(x[2])))]
        if x[0] == "const" and isinstance(cval(x), (str, tuple)):
            return [(st, C(len(cval(x))))]
        c = self.cls_of(x, st)
        if c is not None and self.exact(x):
            r = self.p.lookup(c, "__len__")
            if r and r[0] == "method" and not self.cfg.is_opaque(r[1]):
                return self.call(("bound", x, r[1].qual), [], [], st, ctx, node)
        return [(st, ("op", "len", x, self.ver(x, st) if self.mutable(x, st) else (0, 0)))]

    def b_type(self, args, kw, st, ctx, node):
        if len(args) == 1:
            if args[0][0] == "obj":
                return [(st, ("cls", args[0][2]))]
            return [(st, ("type", args[0]))]
        return self.opaque(ext("builtins.type"), args, kw, st, ctx, node, name="type")

    def b_getattr(self, args, kw, st, ctx, node):
        if len(args) < 2:
            return None
        b, nm = args[0], args[1]
        if is_const(nm) and isinstance(cval(nm), str):
            name = cval(nm)
            if (b, name) in st.heap:
                return [(st, st.heap[(b, name)])]
            if b[0] in ("cls", "obj") and self.on_class(b, name, st) is not None:
                return self.getattr(b, name, st, ctx, node)
            if is_const(b) and len(args) == 3 and not hasattr(cval(b), name):
                return [(st, args[2])]
            if self.lacks(b, name, st) and len(args) == 3:
                return [(st, args[2])]
            if name == "__code__" and self.code_of(b):
                return self.getattr(b, name, st, ctx, node)
            c = self.cls_of(b, st)
            known = False
            if c is not None and self.exact(b):
                known = bool(self.p.lookup(c, name)) and self.p.lookup(c, name)[0] != "extbase" \
                    or name in self.field_types(c) or self.ctor_sets(c, name)
            if known:
                return self.getattr(b, name, st, ctx, node)
            if len(args) == 3:
                res = self.getattr(b, name, st, ctx, node)
                t = ("op", "hasattr", b, nm)
                out = []
                for s, v in res:
                    if type(v) is Raised:
                        out.append((s, v))
                        continue
                    if v[0] not in ("attr",):
                        out.append((s, v))
                        continue
                    for s2, h in self.branch(s, t, node):
                        out.append((s2, v if h else args[2]))
                return out
            res = self.getattr(b, name, st, ctx, node)
            if self.may_raise(st) and b[0] not in ("cls", "obj"):
                s2 = st.fork()
                res.append((s2, Raised(("exc", ext("builtins.AttributeError"), s2.uid(node)))))
            return res
        # dynamic name
        t = ("attr", b, nm, (st.epoch, st.cver.get(("fld", b, nm), 0)))
        if (b, ("dyn", nm)) in st.heap:
            pass
        self.emit(st, Ev("getattr", recv=b, args=args[1:], res=t, node=node, func=ctx.func))
        if len(args) == 3:
            t2 = ("op", "getattr", b, nm, (st.epoch, st.cver.get(("fld", b, nm), 0)), args[2])
            return [(st, t2)]
        if self.may_raise(st):
            s2 = st.fork()
            return [(st, t), (s2, Raised(("exc", ext("builtins.AttributeError"), s2.uid(node))))]
        return [(st, t)]

    def on_class(self, b, name, st):
        """A value stored at run time on the class of b (or on a base), not hidden by a later one."""
        c = self.p.classes.get(b[1] if b[0] == "cls" else b[2])
        for m in c.mro if c is not None else ():
            if isinstance(m, str):
                continue
            v = st.heap.get((("cls", m.qual), name))
            if v is not None:
                return v
            if name in m.methods or name in m.attrs:
                return None
        return None

    def through(self, v, b, st, ctx, node):
        """v found on the class of b: descriptors and functions bind."""
        if v[0] == "obj":
            r = self.p.lookup(self.p.classes[v[2]], "__get__") if v[2] in self.p.classes else None
            if r and r[0] == "method":
                a = [NONE, b] if b[0] == "cls" else [b, ("cls", b[2])]
                return self.call(("bound", v, r[1].qual), a, [], st, ctx, node)
        if b[0] == "obj" and v[0] in ("closure", "fn"):
            return [(st, ("partial", v, (b,), ()))]
        return [(st, v)]

    def code_of(self, b):
        """The function whose code object a function or bound method has."""
        if b[0] == "closure":
            return self.closures[b[1]][0]
        f = self.p.funcs.get(b[1] if b[0] == "fn" else b[2]) if b[0] in ("fn", "bound") else None
        return f.node if f is not None and isinstance(f.node, (ast.FunctionDef, ast.Lambda)) else None

    def lacks(self, b, name, st):
        """Certainly no attribute of that name (functions and classes made here)."""
        if b[0] == "closure" or b[0] == "fn" and str(b[1]).startswith(PKG + ".client"):
            return not hasattr(types.FunctionType, name) and name not in ("__wrapped__", "__module__")
        if b[0] == "obj" and name == "__code__":
            c = self.cls_of(b, st)
            return c is not None and self.exact(b) and c.qual.startswith(PKG + ".client") and not any(
                isinstance(m, str) and m.split(".")[-1] != "object" for m in c.mro) and \
                not self.p.lookup(c, name)
        if b[0] == "cls":
            c = self.p.classes.get(b[1])
            if c is None or not c.qual.startswith(PKG + ".client"):
                return False
            if any(isinstance(m, str) and m not in ("object", "builtins.object") for m in c.mro) or \
                    self.on_class(b, name, st) is not None:
                return False
            return not self.p.lookup(c, name) and not hasattr(object, name) and name not in (
                "__dict__", "__module__", "__qualname__", "__name__", "__annotations__")
        return False

    def ctor_sets(self, c, name):
        for m in c.mro:
            if isinstance(m, str):
                continue
            for f in m.methods.values():
                if f.name != "__init__":
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name:
                        return True
        return False

    def b_dir(self, args, kw, st, ctx, node):
        """Names of an object made here from a class of the client (without those of `object`)."""
        if len(args) != 1 or args[0][0] != "obj":
            return None
        c = self.cls_of(args[0], st)
        if c is None or not self.exact(args[0]) or not c.qual.startswith(PKG + ".client"):
            return None
        ns = {n for b, n in st.heap if b == args[0] and isinstance(n, str) and not n.startswith("$")}
        for k in c.mro:
            if isinstance(k, str):
                if k.split(".")[-1] != "object":
                    return None
                continue
            ns |= set(k.methods) | set(k.attrs)
        return [(st, ("tuple", tuple(C(n) for n in sorted(ns))))]

    def b_hasattr(self, args, kw, st, ctx, node):
        b, nm = args[0], args[1]
        if is_const(nm) and ((b, cval(nm)) in st.heap or b[0] in ("cls", "obj") and self.on_class(
                b, cval(nm), st) is not None):
            return [(st, TRUE)]
        if is_const(b) and is_const(nm) and isinstance(cval(nm), str):
            return [(st, C(hasattr(cval(b), cval(nm))))]
        if is_const(nm) and self.lacks(b, cval(nm), st):
            return [(st, FALSE)]
        if is_const(nm) and cval(nm) == "__code__" and self.code_of(b):
            return [(st, TRUE)]
        return [(st, ("op", "hasattr", b, nm, st.cver.get(("fld", b, cval(nm) if is_const(nm) else nm), 0)))]

    def b_setattr(self, args, kw, st, ctx, node):
        if len(args) != 3:
            return None
        b, nm, v = args
        if is_const(nm) and isinstance(cval(nm), str):
            out = []
            for s, k, x in self.store_attr(b, cval(nm), v, st, ctx, node):
                out.append((s, NONE) if k == "next" else (s, Raised(x)))
            return out
        self.emit(st, Ev("setattr", recv=b, args=[nm, v], node=node, func=ctx.func))
        self.escape(v, st)
        self.mutate(("fld", b, nm), st)
        return self.user_effect(st, ctx, node)

    def b_delattr(self, args, kw, st, ctx, node):
        self.emit(st, Ev("delattr", cval(args[1]) if is_const(args[1]) else "?", recv=args[0],
                         args=args[1:], node=node, func=ctx.func))
        return [(st, NONE)]

    def b_partial(self, args, kw, st, ctx, node):
        if not args:
            return None
        return [(st, ("partial", args[0], tuple(args[1:]), tuple(kw)))]

    def b_next(self, args, kw, st, ctx, node):
        if not args:
            return None
        t = args[0]
        if t[0] in ("list",) and st.heap.get((t, "$elts")):
            el = st.heap[(t, "$elts")]
            if el[0][0] == "item":
                return [(st, el[0][1])]
        src, _, _ = self.iter_source(t, st)
        if src[0] == "tuple" and src[1] and src[1][0][0] != "star":
            return [(st, src[1][0])]
        v = ("elem", src, "first")
        if len(args) > 1:
            out = []
            for s, m in self.branch(st, ("op", "truthv", src, self.ver(src, st)), node):
                out.append((s, v if m else args[1]))
            return out
        return [(st, v)]

    def b_reduce(self, args, kw, st, ctx, node):
        return self.opaque(ext("functools.reduce"), args, kw, st, ctx, node, name="reduce")

    def b_any(self, args, kw, st, ctx, node):
        return self.anyall(args, True, st, ctx, node)

    def b_all(self, args, kw, st, ctx, node):
        return self.anyall(args, False, st, ctx, node)

    def anyall(self, args, want, st, ctx, node):
        out = []

        def bind(s, v):
            s.frames[ctx.fid]["$any"] = v
            return [(s, "next", None)]

        def body(s):
            v = s.frames[ctx.fid].get("$any")
            r = []
            for s2, b in self.truthy(v, s, ctx, node):
                r.append((s2, "ret", C(want)) if b == want else (s2, "next", None))
            return r
        for s, k, v in self.iterate(args[0], st, ctx, node, bind, body):
            s.frames[ctx.fid].pop("$any", None)
            if k == "ret":
                out.append((s, v))
            elif k == "raise":
                out.append((s, Raised(v)))
            else:
                out.append((s, C(not want)))
        return out

    # -- match statement

    def s_Match(self, n, st, ctx):
        def f(s, subj):
            live = [s]
            out = []
            for case in n.cases:
                nxt = []
                for s1 in live:
                    for s2, m in self.match(case.pattern, subj, s1, ctx):
                        if m and case.guard is not None:
                            for s3, g in self.ev_cond(case.guard, s2, ctx):
                                if type(g) is Raised:
                                    out.append((s3, "raise", g.exc))
                                elif g:
                                    out.extend(self.block(case.body, s3, ctx))
                                else:
                                    nxt.append(s3)
                        elif m:
                            out.extend(self.block(case.body, s2, ctx))
                        else:
                            nxt.append(s2)
                live = nxt
            return out + [(s1, "next", None) for s1 in live]
        return self.lift(self.ev(n.subject, st, ctx), f)

    def match(self, p, subj, st, ctx):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, v in self.ev(p.value, st, ctx):
                if type(v) is not Raised:
                    out.extend(self.branch(s, ("op", "==", subj, v), p))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, ("op", "is", subj, C(p.value)), p)
        if isinstance(p, ast.MatchOr):
            live = [st]
            out = []
            for q in p.patterns:
                nxt = []
                for s in live:
                    for s2, m in self.match(q, subj, s, ctx):
                        (out if m else nxt).append((s2, True) if m else s2)
                live = nxt
            return out + [(s, False) for s in live]
        if isinstance(p, ast.MatchAs):
            res = [(st, True)] if p.pattern is None else self.match(p.pattern, subj, st, ctx)
            if p.name:
                for s, m in res:
                    if m:
                        s.frames[ctx.fid][p.name] = subj
            return res
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for s, v in self.ev(p.cls, st, ctx):
                if type(v) is not Raised:
                    out.extend(self.branch(s, ("op", "isinstance", subj, v), p))
            return out
        s2 = st.fork()
        a = ("op", "truth", ("unk", "match", st.uid(p)))
        st.facts.add(a, True, p)
        s2.facts.add(a, False, p)
        return [(st, True), (s2, False)]


def fix_items(t, ix):
    """After renaming a counter to an index term: X[idx] is the element."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "item" and t[2] == ix and t[1] == ix[1]:
        return ("elem", ix[1], ix[2])
    return tuple(fix_items(x, ix) if isinstance(x, tuple) else x for x in t)
