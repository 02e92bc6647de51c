"""C28: evented object proxies announce every change made through them."""

from __future__ import annotations

from ..q import deep, place
from ..terms import C, is_const, show, walk
from . import prop

SELF, NAME, VALUE, KEY, OTHER = (("param", n) for n in ("self", "name", "value", "key", "other"))
WRAPPED = ("attr", SELF, "__wrapped__")
INPLACE = {"add": "+", "sub": "-", "mul": "*", "matmul": "@", "truediv": "/", "floordiv": "//",
           "mod": "%", "pow": "**", "lshift": "<<", "rshift": ">>", "and": "&", "xor": "^",
           "or": "|"}
HOSTS = (SELF, WRAPPED, ("super",))


def id_of_self(t):
    return t[0] == "call" and show(t[1]).split(".")[-1] == "id" and t[2] == (SELF,)


def is_group(t, x, groups):
    """Is t the group of this proxy?"""
    if t[0] == "obj":
        return t[2] in groups
    p = place(t)
    if p[0] == "item" and id_of_self(p[2]) and p[1][0] == "glob":
        return True
    if p[0] == "attr" and p[1] == SELF and p[2].startswith("_self_"):
        return True
    if p[0] == "call" and p[1][0] == "attr" and p[1][2] in ("get", "setdefault") and p[2]:
        return id_of_self(p[2][0])
    return False


def emitted(x, groups):
    """(signal, arguments, event) of every emission from the group of the proxy."""
    out = []
    for e, _ in deep(x.events):
        if e.kind != "call" or not e.recv:
            continue
        n, g = e.name, e.recv
        if n in ("emit", "__call__") and g[0] in ("attr", "item"):
            n, g = g[2], g[1]
            if isinstance(n, tuple):
                n = n[2] if is_const(n) else None
        if is_group(g, x, groups) and n not in ("get", "setdefault"):
            out.append((n, e.args, e))
    return out


def host(t):
    return t in (SELF,) or place(t) == WRAPPED or t[0] == "super" and t[1] == SELF


def setter(x, op, first, second=None):
    """The events of the path that make the change itself."""
    want = [first] if second is None else [first, second]
    out = []
    for e, _ in deep(x.events):
        if not (e.kind == "call" and e.name == op and e.recv and host(e.recv) and list(e.args) == want
                or e.kind in ("setattr", "setitem", "delattr", "delitem") and e.recv
                and place(e.recv) == WRAPPED and op == f"__{e.kind}__" and list(e.args) == want):
            continue
        out.append(e)
    return out


def read(t, kind, k):
    """(receiver, version) when t is a read of attribute/item k."""
    if kind == "attr" and t[0] == "op" and t[1] == "getattr" and t[3] == k:
        return t[2], t[4]
    if kind == "attr" and t[0] == "attr" and t[2] == k:
        return t[1], t[3] if len(t) > 3 else 0
    if kind == "item" and t[0] == "item" and t[2] == k:
        return t[1], t[3] if len(t) > 3 else 0
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == (
            "__getattr__" if kind == "attr" else "__getitem__") and t[2] == (k,):
        return t[1][1], None
    return None


def later(t, kind, k, e):
    """Is t the value read after event e? (None: not such a read)"""
    r = read(t, kind, k)
    if r is None or not host(r[0]):
        return None
    v = r[1]
    if isinstance(v, tuple):
        return v[0] > e.epoch or v[0] == 0 and v[1] > 0 if kind == "item" else v[0] > e.epoch
    return bool(v and v > e.epoch)


def sentinel(t):
    return t[0] == "glob" or t[0] == "new" or t[0] == "obj"


@prop("C28", 60)
def c28(r):
    r.rule("C28.set", "setting an attribute or item of a proxy sets it on the wrapped object once, "
                      "and announces it exactly once, afterwards, with the value it now has, "
                      "exactly when that is another object than before")
    r.rule("C28.new", "an item that was not there before can be set")
    r.rule("C28.delete", "deleting deletes on the wrapped object once and announces it exactly "
                         "once, afterwards")
    r.rule("C28.inplace", "each in-place operator applies its operation once with its operand, "
                          "announces its own name and operand exactly once, and gives the result")
    r.rule("C28.call", "calling calls the wrapped object once with the arguments given, announces "
                       "them once and returns what the object returned")
    r.rule("C28.group", "a proxy keeps one group of its own, found by its identity, made on first "
                        "use and dropped when the proxy dies")
    r.rule("C28.names", "every signal announced is declared in the group of the proxy")
    obj, fun = r.p.find_class("EventedObjectProxy"), r.p.find_class("EventedCallableObjectProxy")
    r.need(obj and fun, "the evented proxies are gone")
    for c, base in ((obj, "ProxyEvents"), (fun, "CallableProxyEvents")):
        gc = r.p.find_class(base)
        r.need(gc, f"{base} is gone")
        group(r, c, gc)
        groups = {gc.qual}
        sets(r, c, groups, gc, "attr", "__setattr__", "attribute_set", NAME)
        sets(r, c, groups, gc, "item", "__setitem__", "item_set", KEY)
        deletes(r, c, groups, gc, "__delattr__", "attribute_deleted", NAME)
        deletes(r, c, groups, gc, "__delitem__", "item_deleted", KEY)
        for op in INPLACE:
            inplace(r, c, groups, gc, op)
    called(r, fun, {r.p.find_class("CallableProxyEvents").qual})


def method(r, c, name):
    m = r.p.lookup(c, name)
    return m[1] if m and m[0] == "method" else None


def declared(r, gc, sig):
    return any(not isinstance(k, str) and sig in k.attrs for k in gc.mro)


def sets(r, c, groups, gc, kind, meth, sig, _k):
    f = method(r, c, meth)
    tag = f"{c.name}.{meth}"
    if not r.ob("C28.set", f"{tag}:defined", f is not None, f"{tag} is not evented"):
        return
    k, v = [("param", p.arg) for p in f.node.args.args[1:3]]
    ok = missing = 0
    for x in r.run(f, c):
        ems = emitted(x, groups)
        ch = setter(x, meth, k, v)
        if x.kind == "raise":
            r.ob("C28.set", f"{tag}:refused", not ems, "a change that failed is announced", f.node, f)
            continue
        if not r.ob("C28.set", f"{tag}:done", len(ch) == 1, f"the value is set {len(ch)} times", f.node, f):
            continue
        e = ch[0]
        same = None
        failed = any(d.kind == "except" or d.extra and d.extra.get("raised")
                     for d, _ in deep(x.events) if d is not e)
        odd = None
        for a, p, _ in x.facts:
            if a[1] not in ("is", "=="):
                continue
            rd = [later(t, kind, k, e) for t in a[2:4]]
            if all(q is None for q in rd):
                continue
            if a[1] == "==":
                odd = a
                continue
            if True in rd and (False in rd or any(sentinel(t) for t in a[2:4])):
                same = p
                r.ob("C28.set", f"{tag}:missing", not any(
                    taken_for(t, x) for t, q in zip(a[2:4], rd) if q is False),
                     f"a missing {kind} counts as if its value were one it may be set to, so that "
                     "setting it to that is not announced", f.node, f)
            else:
                odd = a
        if not r.ob("C28.set", f"{tag}:test", odd is None, "the change is judged by "
                    f"{show(odd) if odd else ''}, not by whether the value read back is another object",
                    f.node, f):
            continue
        if not ems:
            r.ob("C28.set", f"{tag}:announced", same is True, "a change is not announced", f.node, f)
            continue
        ok += 1
        missing += failed
        r.ob("C28.set", f"{tag}:unchanged", same is False or failed and same is None,
             "the same value set again is announced" if same else "the change is announced without "
             "comparing the value read back with the one before", f.node, f)
        r.ob("C28.set", f"{tag}:once", len(ems) == 1 and ems[0][0] == sig,
             f"announced as {[m[0] for m in ems]}", f.node, f)
        n, a, ev = ems[0]
        r.ob("C28.set", f"{tag}:after", x.events.index(ev) > x.events.index(e) if ev in x.events
             and e in x.events else False, "announced before the change", ev.node, ev.func)
        r.ob("C28.set", f"{tag}:value", len(a) == 2 and a[0] == k and later(a[1], kind, k, e) is True,
             f"announced with {[show(t) for t in a]}", ev.node, ev.func)
        r.ob("C28.names", f"{tag}:{n}", declared(r, gc, n), f"{n} is not a signal of the group", ev.node, ev.func)
    r.need(ok or any(k.startswith(f"C28.set|{tag}:") for k in r.findings), f"{tag} never announces anything")
    if kind == "item":
        plain = [d for x in r.run(f, c) for d in first_reads(x, k, meth)]
        r.ob("C28.new", tag, bool(missing) or not plain, "the item is read before it is set, so one that "
             "is not there yet cannot be set", f.node, f)


def taken_for(t, x):
    """Does the read before give a value that users may set when there is none?"""
    if t[:2] != ("op", "getattr") or len(t) < 6 or t[5] is None or not is_const(t[5]):
        return False
    return not any(a[1] == "hasattr" and p for a, p, _ in x.facts)


def first_reads(x, k, meth):
    """Facts in which the item is compared as it was before the change."""
    return [a for a, _, _ in x.facts if a[1] in ("is", "==") and any(
        read(t, "item", k) is not None for t in a[2:4])]


def deletes(r, c, groups, gc, meth, sig, _k):
    f = method(r, c, meth)
    tag = f"{c.name}.{meth}"
    if not r.ob("C28.delete", f"{tag}:defined", f is not None, f"{tag} is not evented"):
        return
    k = ("param", f.node.args.args[1].arg)
    for x in r.run(f, c):
        ems = emitted(x, groups)
        ch = setter(x, meth, k)
        if x.kind == "raise":
            r.ob("C28.delete", f"{tag}:refused", not ems, "a deletion that failed is announced", f.node, f)
            continue
        r.ob("C28.delete", f"{tag}:done", len(ch) == 1, f"deleted {len(ch)} times", f.node, f)
        good = r.ob("C28.delete", f"{tag}:once", len(ems) == 1 and ems[0][0] == sig and list(ems[0][1]) == [k],
                    f"announced as {[(m[0], [show(t) for t in m[1]]) for m in ems]}", f.node, f)
        if good and ch:
            r.ob("C28.delete", f"{tag}:after", x.events.index(ems[0][2]) > x.events.index(ch[0]),
                 "announced before the deletion", ems[0][2].node, ems[0][2].func)
            r.ob("C28.names", f"{tag}:{sig}", declared(r, gc, sig), f"{sig} is not a signal of the group",
                 f.node, f)


def inplace(r, c, groups, gc, op):
    meth = f"__i{op}__"
    f = method(r, c, meth)
    tag = f"{c.name}.{meth}"
    if not r.ob("C28.inplace", f"{tag}:defined", f is not None, f"{tag} is not evented"):
        return
    other = ("param", f.node.args.args[1].arg)
    n = 0
    for x in r.run(f, c):
        if x.kind != "ret":
            continue
        n += 1
        ems = [m for m in emitted(x, groups) if m[0] != "attribute_set" or m[1][:1] != (C("__wrapped__"),)]
        r.ob("C28.inplace", f"{tag}:once", len(ems) == 1 and ems[0][0] == "in_place"
             and list(ems[0][1]) == [C(op), other],
             f"announced as {[(m[0], [show(t) for t in m[1]]) for m in ems]}", f.node, f)
        done = []
        for e, _ in deep(x.events):
            if e.kind == "call" and e.name == meth and e.recv and host(e.recv) and list(e.args) == [other]:
                done.append(e)
            elif e.kind in ("call", "store", "setattr") and (
                    e.name == "__setattr__" and C("__wrapped__") in e.args or e.name == "__wrapped__"):
                if any(applied(t, op, other) for t in e.args):
                    done.append(e)
            elif e.kind == "call" and e.name == f"i{op}".replace("iand", "iand_").rstrip("_") and \
                    len(e.args) == 2 and place(e.args[0]) == WRAPPED and e.args[1] == other:
                done.append(e)
        r.ob("C28.inplace", f"{tag}:done", len(done) == 1, f"the operation is applied {len(done)} times",
             f.node, f)
        r.ob("C28.inplace", f"{tag}:result", x.val == SELF or any(x.val == e.res for e in done if e.res),
             f"the result is {show(x.val)}", f.node, f)
    r.need(n, f"{tag} never returns")
    r.ob("C28.names", f"{tag}:in_place", declared(r, gc, "in_place"), "in_place is not a signal of the group",
         f.node, f)


def applied(t, op, other):
    return any(u[0] == "op" and u[1] in (INPLACE[op], INPLACE[op] + "=") and len(u) > 3
               and place(u[2]) == WRAPPED and u[3] == other for u in walk(t))


def called(r, c, groups):
    f = method(r, c, "__call__")
    r.need(f, "EventedCallableObjectProxy is not callable")
    a = f.node.args
    r.need(a.vararg and a.kwarg, "EventedCallableObjectProxy.__call__ does not take any arguments")
    va, kw = ("param", "*" + a.vararg.arg), ("param", "**" + a.kwarg.arg)
    n = 0
    for x in r.run(f, c):
        if x.kind != "ret":
            continue
        n += 1
        ems = emitted(x, groups)
        r.ob("C28.call", "announced", len(ems) == 1 and ems[0][0] == "called" and list(ems[0][1]) == [va, kw],
             f"announced as {[(m[0], [show(t) for t in m[1]]) for m in ems]}", f.node, f)
        cs = [e for e, _ in deep(x.events) if e.kind == "call" and (
            e.name == "__wrapped__" and e.recv == SELF or e.fn and place(e.fn) == WRAPPED
            or e.name == "__call__" and e.recv and host(e.recv))]
        good = r.ob("C28.call", "called", len(cs) == 1, f"the object is called {len(cs)} times", f.node, f)
        if good:
            e = cs[0]
            r.ob("C28.call", "arguments", list(e.args) == [("star", va)] and list(e.kw) == [("**", kw)],
                 f"the object is called with {[show(t) for t in e.args]}", e.node, e.func)
            r.ob("C28.call", "result", x.val == e.res, f"the result is {show(x.val)}", f.node, f)
    r.need(n, "calling a proxy never returns")


def group(r, c, gc):
    f = method(r, c, "events")
    r.need(f, f"{c.name}.events is gone")
    made = found = 0
    tag = c.name
    for x in r.run(f, c):
        if x.kind != "ret":
            r.ob("C28.group", f"{tag}:raises", x.kind == "ret", "events raises", f.node, f)
            continue
        allocs = [e for e, _ in deep(x.events) if e.kind == "alloc" and e.res and e.res[0] == "obj"
                  and is_sub(r, e.res[2], gc)]
        v = x.val
        if not allocs:
            found += 1
            r.ob("C28.group", f"{tag}:same", is_group(v, x, {gc.qual}), f"a proxy's group is looked up as "
                 f"{show(v)}, not by the identity of the proxy", f.node, f)
            continue
        made += 1
        r.ob("C28.group", f"{tag}:one", len(allocs) == 1, "more than one group is made", f.node, f)
        g = allocs[0].res
        r.ob("C28.group", f"{tag}:class", g[2] == gc.qual, f"a {g[2]} is made", f.node, f)
        r.ob("C28.group", f"{tag}:returned", v == g or is_group(v, x, {gc.qual}), f"{show(v)} is returned",
             f.node, f)
        puts = [e for e, _ in deep(x.events) if e.kind == "setitem" and g in e.args[1:]
                or e.kind == "call" and e.name in ("setdefault", "__setitem__") and g in e.args[1:]
                or e.kind in ("store", "setattr") and e.recv == SELF and g in e.args]
        if not r.ob("C28.group", f"{tag}:kept", len(puts) == 1, f"the new group is stored {len(puts)} times",
                    f.node, f):
            continue
        e = puts[0]
        if e.kind in ("store", "setattr"):
            r.ob("C28.group", f"{tag}:own", str(e.name).startswith("_self_"), "the group is stored on the "
                 "wrapped object, so its other proxies share it", e.node, e.func)
            continue
        key = e.args[0]
        r.ob("C28.group", f"{tag}:own", id_of_self(key), f"the group is remembered under {show(key)}, not the "
             "identity of the proxy", e.node, e.func)
        fin = [d for d, _ in deep(x.events) if d.kind == "call" and d.name in ("finalize", "ref") and d.args
               and d.args[0] == SELF and len(d.args) > 1]
        if not r.ob("C28.group", f"{tag}:dropped", bool(fin), "the group is never dropped: a later proxy at "
                    "the same address gets it", e.node, e.func):
            continue
        d = fin[0]
        t = d.args[1]
        rest = list(d.args[2:])
        if t[0] == "partial":
            t, rest = t[1], [*t[2], *rest]
        r.ob("C28.group", f"{tag}:weak", not any(u == SELF for a in (t, *rest) if not id_of_self(a)
                                                  for u in walk(a) ), "what drops the group keeps the "
             "proxy alive", d.node, d.func)
        if t[0] in ("attr", "bound"):
            r.ob("C28.group", f"{tag}:entry", rest[:1] == [key] and t[1] == e.recv and str(t[2]).split(".")[-1]
                 in ("pop", "__delitem__"), "what runs when the proxy dies does not remove its group",
                 d.node, d.func)
        else:
            r.note("what runs when a proxy dies is not decided")
    r.need(made and found, f"{c.name}.events never makes or never finds a group")


def is_sub(r, qual, gc):
    c = r.p.classes.get(qual)
    return c is not None and any(k is gc or getattr(k, "name", k) == "SignalGroup" for k in c.mro)
