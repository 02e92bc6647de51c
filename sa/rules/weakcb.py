"""C10, C12, C13: callback objects (how they call, what they keep alive, what happens when
their target dies).  Decided on small clients of the package, followed end to end."""

from __future__ import annotations

import ast

from ..q import SELF, calls, deep, fact, place, truth_of
from ..slots import mutations
from ..terms import C, NONE, TRUE, cval, is_const, show, walk
from . import prop
from .connect import reg_paths, wc_event, alloc_of, add_term, adds_of, wc_call

HEAD = "from psygnal._weak_callback import weak_callback\n"
ARGS = ("target, *bound, max_args=max_args, finalize=fin, on_ref_error=err, priority=prio")
SIG = "def client(target, max_args, bound, fin, err, prio, delivered):\n"
TARGET, BOUND, DELIV = ("param", "target"), ("param", "bound"), ("param", "delivered")
FIN, ERR, PRIO, MAXA = ("param", "fin"), ("param", "err"), ("param", "prio"), ("param", "max_args")


def A(t, n):
    return ("attr", t, n)


def cb_paths(r, how):
    body = {"cb": "    cb.cb(delivered)\n", "call": "    cb(*delivered)\n", "new": "",
            "deref": "    return cb.dereference()\n"}[how]
    return r.client(("weakcb", how), HEAD + SIG + f"    cb = weak_callback({ARGS})\n" + body
                    + "    return cb\n")


def isinst(x, t, name):
    for a, p, _ in x.facts:
        if a[1] == "isinstance" and place(a[2]) == t and show(a[3]).split(".")[-1] == name:
            return p
    return None


def under(t):
    """What a term stands for when weak references are looked through."""
    t = place(t)
    if t[0] == "call" and t[1][0] == "new" and t[1][1].split(".")[-1] in ("ref", "WeakMethod") \
            and t[1][2]:
        return place(t[1][2][0])
    return t


def flat(ts):
    out = []
    for t in ts:
        t = place(t)
        if t[0] != "star":
            out.append(t)
            continue
        v = t[1]
        if v[0] == "op" and v[1] == "+":
            out += flat([("star", w) for w in v[2:]])
        elif v[0] == "tuple":
            out += flat(v[1])
        elif v[0] == "call" and v[1][0] == "ext" and v[1][1].split(".")[-1] in ("tuple", "list") \
                and len(v[2]) == 1:
            out += flat([("star", v[2][0])])
        else:
            out.append(("star", v))
    return out


class Want:
    """What delivering must do on a path, from what was asked for."""

    def __init__(self, x):
        self.x = x
        self.partial = isinst(x, TARGET, "partial") is True
        self.T = A(TARGET, "func") if self.partial else TARGET
        self.B = ([("star", A(TARGET, "args"))] if self.partial else []) + [("star", BOUND)]
        lim = fact(x, lambda a: a[1] == "is" and place(a[2]) == MAXA and a[3] == NONE)
        self.lim = None if lim is None else not lim
        sl = ("slice", DELIV, NONE, MAXA, NONE)
        self.Ds = {True: [sl], False: [DELIV, sl]}.get(self.lim, [sl])

    def empty(self, s):
        if truth_of(self.x, s[1]) is False:
            return True
        return any(a[1] in ("truth", "truthv") and not p and s in flat([("star", place(a[2]))])
                   for a, p, _ in self.x.facts)

    def norm(self, ts):
        return [t for t in flat(ts) if not (t[0] == "star" and self.empty(t))]

    def args_ok(self, ts):
        return any(self.norm(ts) == self.norm([*self.B, ("star", d)]) for d in self.Ds)

    def kw_ok(self, kw):
        want = [("**", A(TARGET, "keywords"))]
        if not self.partial or truth_of(self.x, A(TARGET, "keywords")) is False or any(
                a[1] == "truthv" and not p and self.copied(a[2]) == want[0][1]
                for a, p, _ in self.x.facts if a[0] == "op"):
            want = []
        return [(n, self.copied(v)) for n, v in kw] == want

    def copied(self, v):
        """What `v` was made of, when it is a copy of one dict."""
        v = place(v)
        el = self.x.st.heap.get((v, "$elts"))
        while el is not None and len(el) == 1 and el[0][0] == "spread":
            v = place(el[0][1])
            el = self.x.st.heap.get((v, "$elts"))
        return v

    def bound_item(self, t, i):
        t = place(t)
        if t[0] == "star":
            return False
        if t[0] == "item" and t[2] == C(i):
            b = t[1]
            if b[0] == "slice" and b[2] in (NONE, C(0)):
                b = b[1]
            return self.norm([("star", b)]) == self.norm(self.B)
        return False

    def bound(self, t):
        """The sequence of all bound arguments, or a slice of it: where it starts."""
        t = place(t)
        n = 0
        if t[0] == "slice" and t[3] == NONE and is_const(t[2]) and isinstance(cval(t[2]), int):
            n, t = cval(t[2]), t[1]
        return n if self.norm([("star", t)]) == self.norm(self.B) else None

    def counted(self):
        """What the path knows about the number of bound arguments: (comparison, constant, answer)."""
        for a, p, _ in self.x.facts:
            if a[1] in ("==", "<"):
                u, v = (place(t) for t in a[2:4])
                for s, k, op in ((u, v, a[1]), (v, u, a[1] if a[1] == "==" else ">")):
                    if s[0] == "op" and s[1] == "len" and is_const(k) and isinstance(cval(k), int) \
                            and self.bound(s[2]) is not None:
                        yield op, cval(k) + self.bound(s[2]), p
            elif a[1] in ("truth", "truthv") and self.bound(a[2]) is not None:
                yield ">", self.bound(a[2]), p

    def exactly(self, n):
        """Is it known that no more than n arguments are bound?"""
        return not self.norm(self.B) or any(
            p and (op == "==" and c <= n or op == "<" and c <= n + 1) or not p and op == ">" and c <= n
            for op, c, p in self.counted())

    def more(self, n):
        """Is it known that more than n arguments are bound?"""
        return any(p and (op == ">" and c >= n or op == "==" and c > n) or not p and op == "<" and c > n
                   for op, c, p in self.counted())

    def value_ok(self, t, spread=False):
        t = place(t)
        for d in self.Ds:
            if spread and t == ("star", d):
                return True
            one = None
            for a, p, _ in self.x.facts:
                if a[1] in ("==", "<") and any(place(u) == ("op", "len", d) for u in a[2:]):
                    if a[1] == "==" and a[3] == C(1):
                        one = p
            if one and t == ("item", d, C(0)):
                return True
            if one is False and t == d:
                return True
        return False


def delivered(x):
    """Events that hand the delivered arguments to somebody."""
    out = []
    for e, st in deep(x.events):
        if e.kind in ("call", "setattr", "setitem") and any(
                DELIV in walk(v) for v in (*e.args, *(v for _, v in e.kw))):
            out.append((e, st))
    return out


def kind(e, w):
    """How a delivering event addresses its target: (what, remaining args, key)"""
    T, S, F = w.T, A(w.T, "__self__"), A(w.T, "__func__")
    if e.kind == "setattr":
        return "setattr", e.args[1:], (e.recv, e.args[0])
    if e.kind == "setitem":
        return "setitem", e.args[1:], (e.recv, e.args[0])
    fn = place(e.fn)
    f = under(fn)
    if f == T:
        return "func", e.args, None
    if f == F:
        if e.args and under(e.args[0]) == S:
            return "method", e.args[1:], None
        return "method-self", e.args, None
    if fn[0] == "op" and fn[1] == "getattr" and under(fn[2]) == S:
        return "builtin", e.args, fn[3]
    if fn[0] == "call" and fn[1][0] == "attr" and fn[1][2] == "__get__" and fn[2]:
        if under(fn[1][1]) == F and under(fn[2][0]) == S:
            return "method", e.args, None
    if fn[0] == "attr" and fn[2] == "__setitem__" and under(fn[1]) == S:
        return "setitem", e.args[1:], (fn[1], e.args[0] if e.args else NONE)
    if fn[0] == "attr" and under(fn[1]) == S:
        return "builtin", e.args, C(fn[2])
    if fn == ("ext", "builtins.setattr") and len(e.args) >= 3:
        return "setattr", e.args[2:], (e.args[0], e.args[1])
    return None, e.args, None


def judge_delivery(r, x, how):
    """One client path that returned."""
    ev = delivered(x)
    what = {"cb": "delivering", "call": "calling the callback object"}[how]
    if isinst(x, TARGET, "WeakCallback"):
        r.ob("C10.reuse", how, len(ev) == 1 and (
            ev[0][0].recv == TARGET or ev[0][0].fn == TARGET),
            "a ready-made callback is not used as it is", ev[0][0].node if ev else None)
        return
    w = Want(x)
    if forwarded(r, x, w, how):
        return
    r.ob("C10.once", how, len(ev) == 1 and not ev[0][1],
         f"{what} calls the target {len(ev)} times when {why(x)}",
         (ev[0][0] if ev else x.events[-1]).node, (ev[0][0] if ev else x.events[-1]).func)
    if len(ev) != 1:
        return
    e = ev[0][0]
    k, args, key = kind(e, w)
    loc = (e.node, e.func)
    if k is None:
        r.note(f"{what}: target {show(e.fn) if e.fn else '?'} not decided")
        return
    if k == "method-self":
        r.fail("C10.args", f"{how}:method", "the method is called without its own object first",
               *loc)
        return
    if k in ("func", "method", "builtin"):
        r.ob("C10.args", f"{how}:{k}", w.args_ok(args),
             f"{what} passes ({', '.join(map(show, args))}) when {why(x)}", *loc)
        r.ob("C10.kwargs", f"{how}:{k}", w.kw_ok(e.kw) or k == "builtin" and not e.kw and (
            not w.partial or truth_of(x, A(TARGET, "keywords")) is False),
             f"{what} passes keywords ({', '.join(n + '=' + show(v) for n, v in e.kw)}) when "
             f"{why(x)}", *loc)
        if k == "builtin":
            r.ob("C10.target", f"{how}:builtin", place(key) == A(w.T, "__name__"),
                 f"{what} calls another method of the object", *loc)
        return
    obj, name = key
    if k == "setattr":
        ok = w.bound_item(under(obj), 0) and w.bound_item(name, 1)
    else:
        ok = under(obj) == A(w.T, "__self__") and w.bound_item(name, 0)
    r.ob("C10.target", f"{how}:{k}", ok, f"{what} assigns {show(obj)} {show(name)}", *loc)
    r.ob("C10.value", f"{how}:{k}:bound", w.exactly(2 if k == "setattr" else 1), "a setter made from a partial with "
         f"more bound arguments assigns the delivered ones instead of them when {why(x)}", *loc)
    r.ob("C10.kwargs", f"{how}:{k}", w.kw_ok([]), "a setter made from a partial with bound keyword arguments "
         f"drops them when {why(x)}", *loc)
    r.ob("C10.value", f"{how}:{k}", len(args) == 1 and w.value_ok(args[0], how == "call"),
         f"{what} assigns {', '.join(map(show, args))} when {why(x)}", *loc)


def why(x):
    fs = [(a, p) for a, p, _ in x.facts if a[1] not in ("hasattr",)]
    return " and ".join(("" if p else "not ") + show(a) for a, p in fs[-5:])


def forwarded(r, x, w, how):
    """weak_callback calling itself again (curried functions): everything must be passed on."""
    c = [e for e in calls(x.events, "weak_callback")]
    if not c:
        return False
    e = c[-1]
    kw = dict(e.kw)
    ok = all(kw.get(n) == v for n, v in (("max_args", MAXA), ("finalize", FIN),
                                         ("on_ref_error", ERR), ("priority", PRIO)))
    args, kws = list(e.args[1:]), []
    t = e.args[0] if e.args else NONE
    while t[0] == "partial":
        args, kws = list(t[2]) + args, list(t[3]) + kws
        t = t[1]
    r.ob("C10.forward", how + ":kw", w.kw_ok(kws), "the keyword arguments bound around a curried function are "
         f"lost when {why(x)}", e.node, e.func)
    r.ob("C10.forward", how, ok and w.norm(args) == w.norm(w.B),
         f"an inner callback is made with ({', '.join(map(show, e.args))}, "
         f"{', '.join(n + '=' + show(v) for n, v in e.kw)})", e.node, e.func)
    return True


@prop("C10", 40)
def c10(r):
    r.rule("C10.once", "delivering to a live callback performs exactly one call or assignment")
    r.rule("C10.args", "the target receives the bound arguments, then the delivered ones cut to "
                       "the limit")
    r.rule("C10.kwargs", "the target receives the bound keyword arguments")
    r.rule("C10.target", "the object, method, attribute or key addressed is the one given")
    r.rule("C10.value", "setters assign the single delivered value, or the whole tuple")
    r.rule("C10.deref", "the dereferenced callable is the target with its bound arguments")
    r.rule("C10.reuse", "a ready-made callback is used as it is")
    r.rule("C10.forward", "an inner callback is made with all options")
    r.rule("C10.priority", "every kind of callback carries the priority given")
    for how in ("cb", "call"):
        ps = cb_paths(r, how)
        kinds = set()
        for x in ps:
            if x.kind == "ret":
                judge_delivery(r, x, how)
                kinds.add(x.val[2] if x.val[0] == "obj" else x.val[0])
                if how == "cb" and x.val[0] == "obj":
                    v = [e.args[0] for e, _ in deep(x.events)
                         if e.kind == "store" and e.recv == x.val and e.name == "priority"]
                    r.ob("C10.priority", x.val[2].split(".")[-1], v and v[-1] == PRIO,
                         f"a {show(x.val)} has priority {show(v[-1]) if v else '(none)'}",
                         alloc_of(x, x.val).node, alloc_of(x, x.val).func)
        r.need(len(kinds) >= 3, "weak_callback makes fewer than three kinds of callbacks")
    for x in cb_paths(r, "deref"):
        if x.kind != "ret" or known_none(x, x.val) or isinst(x, TARGET, "WeakCallback"):
            continue
        if any(True for _ in calls(x.events, "weak_callback")):
            continue
        judge_deref(r, x)


def judge_deref(r, x):
    w = Want(x)
    v = x.val
    args, kw = [], []
    while v[0] == "partial":
        # ("partial", fn, args, kw)
        args = list(v[2]) + args
        kw = list(v[3]) + kw if len(v) > 3 else kw
        v = v[1]
    v = place(v)
    S, F = A(w.T, "__self__"), A(w.T, "__func__")
    u = under(v)
    f = r.p.find_func("weak_callback")
    if v == ("ext", "builtins.setattr"):
        ok = len(args) == 2 and w.bound_item(under(args[0]), 0) and w.bound_item(args[1], 1)
        r.ob("C10.deref", "setattr", ok, f"dereferencing gives {show(x.val)}", f.node, f)
        return
    if v[0] == "attr" and v[2] == "__setitem__" and under(v[1]) == S:
        ok = len(args) == 1 and w.bound_item(args[0], 0)
        r.ob("C10.deref", "setitem", ok, f"dereferencing gives {show(x.val)}", f.node, f)
        return
    if u == w.T:
        k = "func"
    elif v[0] == "call" and v[1][0] == "attr" and v[1][2] == "__get__" and under(v[1][1]) == F \
            and v[2] and under(v[2][0]) == S:
        k = "method"
    elif v[0] == "op" and v[1] == "getattr" and under(v[2]) == S and place(v[3]) == A(w.T, "__name__"):
        k = "builtin"
    elif v[0] == "call" and "MethodType" in show(v[1]) and len(v[2]) == 2 and \
            under(v[2][0]) == F and under(v[2][1]) == S:
        k = "method"
    else:
        r.note(f"dereferencing gives {show(x.val)}: not decided")
        return
    ok = w.norm(args) == w.norm(w.B)
    r.ob("C10.deref", k, ok, f"dereferencing drops bound arguments when {why(x)}", f.node, f)
    if k != "builtin":
        r.ob("C10.deref", k + ":kw", w.kw_ok(kw), f"dereferencing drops bound keywords when {why(x)}",
             f.node, f)


# ---------------------------------------------------------------------------------- ownership


def free_names(n):
    bound = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
    body = n.body if isinstance(n.body, list) else [n.body]
    for s in body:
        for y in ast.walk(s):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                bound.add(y.id)
    return {y.id for s in body for y in ast.walk(s)
            if isinstance(y, ast.Name) and y.id not in bound}


def holds_strong(v, xs, x, seen=()):
    """Does the value v keep one of the things xs alive?  -> the thing, or None"""
    if not isinstance(v, tuple) or not v or v in seen:
        return None
    if place(v) in xs:
        return place(v)
    seen = (*seen, v)
    k = v[0]
    if k == "tuple":
        kids = v[1]
    elif k in ("star", "bound"):
        kids = v[1:2]
    elif k == "partial":
        kids = [v[1], *v[2], *(w for _, w in (v[3] if len(v) > 3 else ()))]
    elif k == "op" and v[1] in ("+", "*", "or", "and", "ifexp"):
        kids = v[2:]
    elif k == "slice":
        kids = v[1:2]
    elif k in ("list", "dict", "set"):
        kids = [w for el in x.st.heap.get((v, "$elts"), ()) for w in el if isinstance(w, tuple)]
    elif k == "closure" and v[1] in x.eng.closures:
        n, ctx = x.eng.closures[v[1]]
        kids = []
        for name in free_names(n):
            c = ctx
            while c is not None:
                fr = x.st.frames.get(c.fid)
                if fr is not None and name in fr:
                    kids.append(fr[name])
                    break
                c = c.parent
        d = x.st.heap.get((v, "$defaults"))
        if d:
            kids += list(d[1])
    elif k == "new" and v[1].split(".")[-1] not in ("ref", "WeakMethod", "finalize", "proxy"):
        kids = [*v[2], *(w for _, w in v[3])]
    else:
        return None
    for w in kids:
        h = holds_strong(w, xs, x, seen)
        if h:
            return h
    return None


def fields_of(x, obj):
    out = {}
    for e, _ in deep(x.events):
        if e.kind == "store" and e.recv == obj:
            out[e.name] = e
    return out


def kept(x, obj, xs):
    for name, e in fields_of(x, obj).items():
        h = holds_strong(e.args[0], xs, x)
        if h:
            return name, h, e
    return None


def ref_failed(x):
    return any(e.kind == "call" and e.name == "ref" and (e.extra or {}).get("raised")
               for e, _ in deep(x.events))


def policies(x):
    """The values on_ref_error may have on this path."""
    left = {"raise", "warn", "ignore"}
    for a, p, _ in x.facts:
        if a[1] in ("==", "is") and place(a[2]) == ERR and is_const(a[3]):
            left = left & {a[3][2]} if p else left - {a[3][2]}
        elif a[1] == "in" and place(a[2]) == ERR and a[3][0] == "tuple":
            vs = {v[2] for v in a[3][1] if is_const(v)}
            left = left & vs if p else left - vs
    return left


@prop("C12", 20)
def c12(r):
    r.rule("C12.weak", "no field of the callback made for a method, setter or callable object keeps "
                       "the object (or the bound method, partial or arguments holding it) alive")
    r.rule("C12.strong", "the callback made for a plain function keeps it alive, unless asked not to")
    r.rule("C12.policy", "an object without weak reference support is kept strongly, after a "
                         "warning, silently, or refused, as on_ref_error says")
    r.rule("C12.owner", "a signal does not keep the object it belongs to alive")
    for x in cb_paths(r, "new"):
        if isinst(x, TARGET, "WeakCallback") or any(True for _ in calls(x.events, "weak_callback")):
            continue
        w = Want(x)
        failed = ref_failed(x)
        func = isinst(x, w.T, "FunctionType") is True
        refs = [e for e in calls(x.events, "ref")]
        warned = [e for e in calls(x.events, "warn")]
        if failed and refs:
            if x.kind == "raise" and any((e.extra or {}).get("raised") == x.val for e, _ in deep(x.events)
                                         if e.kind == "call" and e.name != "ref"):
                continue  # refused for another reason
            loc = (refs[-1].node, refs[-1].func)
            for pol in sorted(policies(x)):
                r.ob("C12.policy", pol, (x.kind == "raise") == (pol == "raise")
                     and bool(warned) == (pol == "warn"),
                     f"with on_ref_error={pol!r}, an object without weak reference support "
                     f"{'is refused' if x.kind == 'raise' else 'is accepted'} "
                     f"{'after' if warned else 'without'} a warning", *loc)
            continue
        if x.kind != "ret" or x.val[0] != "obj":
            continue
        al = alloc_of(x, x.val)
        loc = (al.node, al.func)
        r.ob("C12.policy", "nowarn", not warned, "a warning is issued although the weak reference "
             "was made", *loc)
        cls = x.val[2].split(".")[-1]
        if func:
            r.ob("C12.strong", cls, kept(x, x.val, {w.T, TARGET}) is not None,
                 f"a {cls} does not keep its function alive", *loc)
            continue
        xs = {TARGET, w.T, A(w.T, "__self__")}
        if fact(x, lambda a: a[1] == "is" and any("setattr" in show(u) for u in a[2:])) and not w.more(2):
            xs |= {BOUND, A(TARGET, "args"), ("op", "+", A(TARGET, "args"), BOUND),
                   *(place(e.args[0]) for e in refs)}
        k = kept(x, x.val, xs)
        r.ob("C12.weak", cls, k is None,
             f"a {cls} keeps {show(k[1]) if k else ''} alive through its field {k[0] if k else ''}",
             *((k[2].node, k[2].func) if k else loc))
    ps = r.client(("weakcb", "weakfn"), HEAD + "def client(target, fin):\n"
                  "    return weak_callback(target, strong_func=False, finalize=fin)\n")
    for x in ps:
        if x.kind == "ret" and x.val[0] == "obj" and isinst(x, TARGET, "FunctionType") \
                and not ref_failed(x):
            al = alloc_of(x, x.val)
            k = kept(x, x.val, {TARGET})
            r.ob("C12.strong", "strong_func=False", k is None,
                 "a function is kept alive although strong_func=False", al.node, al.func)
    setters(r)
    wrappers(r)
    owner(r)


def setters(r):
    """connect_setattr and connect_setitem make their callbacks directly."""
    for cn, key in (("WeakSetattr", "attr"), ("WeakSetitem", "key")):
        ps = r.client(("weakcb", cn), f"from psygnal._weak_callback import {cn}\n"
                      f"def client(obj, key, fin):\n"
                      f"    return {cn}(obj, key, finalize=fin)\n")
        for x in ps:
            if x.kind != "ret" or ref_failed(x):
                continue
            k = kept(x, x.val, {("param", "obj")})
            al = alloc_of(x, x.val)
            r.ob("C12.weak", cn, k is None, f"a {cn} keeps its object alive through its field "
                 f"{k[0] if k else ''}", *((k[2].node, k[2].func) if k else (al.node, al.func)))


def wrappers(r):
    """Callbacks made around another callback hold that one, not what it points to."""
    W = ("param", "wrapped")
    for x in r.client(("queue", "wrap"), "from psygnal._queue import QueuedCallback\n"
                      "def client(wrapped, thread):\n    return QueuedCallback(wrapped, thread)\n"):
        if x.kind != "ret" or x.val[0] != "obj":
            continue
        for name, e in fields_of(x, x.val).items():
            strong = {t for t in walk(e.args[0]) if t[0] == "call" and t[1][0] == "attr"
                      and place(t[1][1]) == W and (t[1][2] == "dereference" or t[1][2].endswith("_ref")
                                                   or t[1][2] == "_f")}
            strong = {place(t) for t in strong}
            r.ob("C12.weak", "QueuedCallback", not (strong and holds_strong(e.args[0], strong, x)),
                 f"a callback connected to a thread keeps its receiver alive through its field {name}",
                 e.node, e.func)


def owner(r):
    ps = r.client(("owner",), "from psygnal._signal import SignalInstance\n"
                  "def client(owner):\n"
                  "    return SignalInstance((), instance=owner, name='x')\n")
    n = 0
    for x in ps:
        if x.kind != "ret" or x.val[0] != "obj":
            continue
        if ref_failed(x) or any(a[1] == "is" and p and a[2] == ("param", "owner") and a[3] == NONE
                                for a, p, _ in x.facts):
            continue
        n += 1
        k = kept(x, x.val, {("param", "owner")})
        al = alloc_of(x, x.val)
        r.ob("C12.owner", "SignalInstance", k is None, "a signal keeps its owner alive through its "
             f"field {k[0] if k else ''}", *((k[2].node, k[2].func) if k else (al.node, al.func)))
    if not n:
        r.note("SignalInstance construction not decided")


# ---------------------------------------------------------------------------------- death


def ref_results(x):
    """Results of calling a weak reference on this path."""
    out = []
    for e, _ in deep(x.events):
        for t in (e.res, e.fn, e.recv, *e.args):
            if isinstance(t, tuple):
                for s in walk(t):
                    if s[0] == "call" and s[1][0] == "new" and s[1][1].split(".")[-1] == "ref" \
                            and not s[2] and s not in out:
                        out.append(s)
    for a, _, _ in x.facts:
        for s in walk(a):
            if s[0] == "call" and s[1][0] == "new" and s[1][1].split(".")[-1] == "ref" \
                    and not s[2] and s not in out:
                out.append(s)
    return out


def known_none(x, t):
    if t == NONE:
        return True
    while t[0] == "partial":
        t = t[1]
    for a, p, _ in x.facts:
        if a[1] in ("is", "==") and place(a[2]) == place(t) and a[3] == NONE:
            return p
        if a[1] in ("truth", "truthv") and place(a[2]) == place(t) and p:
            return False
    return None


@prop("C13", 20)
def c13(r):
    r.rule("C13.dead", "delivering to a callback whose object is gone raises ReferenceError and "
                       "calls nothing; dereferencing it gives None")
    r.rule("C13.finalize", "every weak reference a callback makes carries the finalizer, which runs "
                           "at most once, with that callback")
    r.rule("C13.wired", "every connecting method passes a finalizer that removes that callback "
                        "from this signal, and never raises")
    r.rule("C13.alive", "only a callback whose object is gone (None) counts as dead: an object that "
                        "is merely false in a boolean context does not")
    for how in ("cb", "call"):
        for x in cb_paths(r, how):
            if isinst(x, TARGET, "WeakCallback") or any(True for _ in calls(x.events, "weak_callback")):
                continue
            rs = ref_results(x)
            if not rs:
                continue
            alive(r, x, rs, how, x.kind == "raise")
            ev = delivered(x)
            dead = [t for t in rs if known_none(x, t)]
            if dead or not ev:
                isref = x.kind == "raise" and x.val[0] == "exc" and x.val[1] and \
                    x.val[1][1].endswith("ReferenceError")
                r.ob("C13.dead", how, isref and not ev,
                     f"delivering to a dead callback {'calls ' + repr(ev[0][0])[:80] if ev else 'does not raise ReferenceError'}"
                     f" when {why(x)}", x.events[-1].node, x.events[-1].func)
            else:
                for e, _ in ev:
                    used = [t for t in rs if any(t in walk(v) for v in (
                        e.fn or (), e.recv or (), *e.args) if isinstance(v, tuple))]
                    r.ob("C13.dead", how + ":checked", all(known_none(x, t) is False or (
                        x.val is not None and known_none(x, e.fn) is False and e.fn not in rs and
                        not none_has(e)) for t in used),
                        f"a weak reference is used without checking that its object is alive when "
                        f"{why(x)}", e.node, e.func)
    f = r.p.find_func("weak_callback")
    for x in cb_paths(r, "deref"):
        if isinst(x, TARGET, "WeakCallback"):
            continue
        rs = ref_results(x)
        alive(r, x, rs, "dereference", x.kind == "ret" and x.val == NONE)
        if any(known_none(x, t) for t in rs):
            r.ob("C13.dead", "dereference", x.kind == "ret" and x.val == NONE,
                 f"a dead callback dereferences to {show(x.val)}", f.node, f)
    finalizers(r)
    wired(r)


def alive(r, x, rs, how, gave_up):
    """A path that treats the callback as dead must know that something is None."""
    if not gave_up or any(known_none(x, t) for t in rs):
        return
    for t in rs:
        X = place(t[1][2][0]) if t[1][2] else NONE
        if X[0] == "attr" and X[2] == "__func__":
            continue
        false = [(a, nd) for a, p, nd in x.facts
                 if a[1] in ("truth", "truthv") and place(a[2]) == place(t) and not p]
        e = x.events[-1]
        r.ob("C13.alive", how, not false, "a live object that is false in a boolean context is "
             "treated as dead", e.node, e.func)


def none_has(e):
    """Is the method looked up on a possibly dead object (None has some methods too)?"""
    fn = place(e.fn) if e.fn else ()
    return bool(fn) and fn[0] == "op" and fn[1] == "getattr"


def finalizers(r):
    for x in cb_paths(r, "new"):
        if x.kind != "ret" or x.val[0] != "obj":
            continue
        fin = fact(x, lambda a: a[1] == "is" and place(a[2]) == FIN and a[3] == NONE)
        if fin is None:
            t = truth_of(x, FIN)
            fin = None if t is None else not t
        for e in calls(x.events, "ref"):
            if (e.extra or {}).get("raised"):
                continue
            cls = x.val[2].split(".")[-1]
            cb = e.arg(1, "callback", NONE)
            if fin is True:
                r.ob("C13.finalize", cls + ":none", cb == NONE or cb[0] == "closure", "", e.node, e.func)
                continue
            r.ob("C13.finalize", cls, cb != NONE, "a weak reference is made without the finalizer: "
                 "the callback stays connected after its object died", e.node, e.func)
            if cb[0] not in ("closure", "bound", "partial"):
                continue
            for y in x.eng.apply(x, [("param", "deadref")], fn=cb):
                c1 = [z for z in calls(y.events) if place(z.fn) == FIN]
                r.ob("C13.finalize", cls + ":runs", y.kind == "ret" and len(c1) == 1
                     and c1[0].args == (x.val,),
                     f"when the object dies the finalizer is called {len(c1)} times"
                     + (f" with {', '.join(map(show, c1[0].args))}" if c1 else ""), e.node, e.func)
                if len([1 for q in calls(x.events, "ref")]) < 2:
                    continue
                # a callback with two references: the second death must not finalize again.
                # The finalizer is user code to this analysis: assume it leaves the flag alone.
                y.st.heap.update({k: v for k, v in stored(y, x.val).items()})
                for z in x.eng.apply(y, [("param", "deadref")], fn=cb):
                    c2 = [q for q in calls(z.events) if place(q.fn) == FIN]
                    r.ob("C13.finalize", cls + ":once", len(c2) == 1,
                         "a callback whose object and function both die is finalized twice",
                         e.node, e.func)


def stored(y, obj):
    return {(obj, n): e.args[0] for n, e in fields_of(y, obj).items()}


def wired(r):
    R, regs = reg_paths(r)
    done = set()
    for (c, m), (f, paths) in regs.items():
        for x in paths:
            if x.kind != "ret":
                continue
            for e, st, op in adds_of(x, R):
                _, new = add_term(e, op)
                if new is None:
                    continue
                al = alloc_of(x, new) if new[0] == "obj" else None
                if al is not None and "QueuedCallback" in new[2]:
                    new = al.arg(0, "wrapped")
                    al = None
                ev = al or (wc_event(x, new) if wc_call(new) else None)
                if ev is None:
                    continue
                fin = ev.kwd("finalize", ev.args[3] if al is not None and len(ev.args) > 3 else NONE)
                if not r.ob("C13.wired", f"{c.name}.{m}", fin != NONE, f"{m} makes a callback "
                            "without finalizer: it stays connected after its object died",
                            ev.node, ev.func):
                    continue
                if fin[0] == "bound" and fin[1] == SELF:
                    done.add((c.name, fin[2]))
                else:
                    r.note(f"{m}: finalizer {show(fin)} not decided")
    for cn, qual in sorted(done):
        f = r.p.funcs[qual]
        c = r.p.find_class(cn)
        a = f.node.args
        names = [y.arg for y in a.args][1:]
        if not names:
            continue
        first = ("param", names[0])
        dfl = dict(zip([y.arg for y in a.args][::-1], a.defaults[::-1]))
        rem = False
        for x in r.run(f, c, opaque={"emit", "_run_emit_loop"}):
            if any(p and (a[1] in ("==", "is") and first in map(place, a[2:]) and any(
                    is_const(u) for u in a[2:]) or a[1] == "isinstance" and place(a[2]) == first
                    and "Callback" not in show(a[3])) for a, p, _ in x.facts):
                continue  # the argument is a callback object
            mo = truth_of(x, ("param", "missing_ok"))
            d = dfl.get("missing_ok")
            if mo is not None and isinstance(d, ast.Constant) and bool(d.value) != mo:
                continue
            muts = list(mutations(x.events, R))
            if x.kind == "raise" and not any(
                    (e.extra or {}).get("raised") and place(e.recv or NONE) != A(SELF, R.slots)
                    for e, _ in deep(x.events) if e.kind == "call"):
                r.fail("C13.wired", f"{cn}:raises", "the finalizer raises when the callback is no "
                       f"longer connected and {why(x)}: {show(x.val)}", f.node, f)
            for e, st, op in muts:
                rem = True
                ok = (op == "remove" and e.args and e.args[0] == first) or (
                    op in ("pop", "delitem") and not st)
                r.ob("C13.wired", f"{cn}:removes", ok,
                     f"the finalizer does {op} to the slot list", e.node, e.func)
        r.ob("C13.wired", f"{cn}:any", rem, "the finalizer never removes the callback", f.node, f)
