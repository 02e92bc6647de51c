"""C20-C22: copies of signals, declared signals, and who is emitting."""

from __future__ import annotations

import ast

from ..q import SELF, calls, deep, fact, place
from ..slots import ADD
from ..terms import C, NONE, is_const, show, strip_ver, walk
from ..report import NOISE
from ..roles import signal_roles
from . import prop
from .state import P_, Roles

SIG = "    sig = SignalInstance((int,), name='x')\n"
REL = ("    m1 = SignalInstance((int,), name='a')\n"
       "    sig = SignalRelay({'a': m1})\n")
STR = "    sig = StrongFunction(fn, 2, (3,), {'k': 4}, 'ignore', 5)\n"
IMP = ("from psygnal import Signal, SignalInstance\nfrom psygnal._group import SignalGroup, SignalRelay\n"
       "from psygnal._weak_callback import StrongFunction, WeakCallback, WeakFunction, WeakMethod\n")


def kind(v, obj):
    if v[0] == "new" and v[1].split(".")[-1] in ("Lock", "RLock"):
        return "lock"
    if v[0] == "bound" and v[1] == obj:
        return "bound"
    if v[0] in ("closure", "partial") or v[0] == "new" and "ref" in v[1]:
        return "owner"
    return "plain"


def state_of(x, obj):
    return {n: v for (b, n), v in x.st.heap.items() if b == obj and not n.startswith("$")}


def contains(x, v, want, depth=0):
    """Is the value want, or a container made from it?"""
    if place(v) == want:
        return True
    if depth > 4:
        return False
    el = x.st.heap.get((v, "$elts"))
    if el is not None and len(el) == 1 and el[0][0] in ("spread", "each"):
        src = el[0][1] if el[0][0] == "spread" else el[0][2]
        if contains(x, src, want, depth + 1):
            return True
    if v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("copy", "__copy__") and contains(
            x, v[1][1], want, depth + 1):
        return True
    if v[0] in ("call", "new"):
        return any(contains(x, a, want, depth + 1) for a in v[2] if isinstance(a, tuple) and a)
    if v[0] == "op" and v[1] in ("getitem", "+"):
        return any(contains(x, a, want, depth + 1) for a in v[2:4] if isinstance(a, tuple) and a)
    return False


def no_uid(t):
    """The term without allocation / call numbers."""
    if not isinstance(t, tuple):
        return t
    t = strip_ver(t)
    if t and t[0] in ("call", "new") and len(t) == 5:
        return (t[0], no_uid(t[1]), tuple(no_uid(a) for a in t[2]), tuple(
            (k, no_uid(v)) for k, v in t[3]))
    return t


def opaque_restore(x, obj):
    """The state is restored in bulk from something not followed."""
    for e, _ in deep(x.events):
        if e.recv is None:
            continue
        if e.kind == "call" and e.name in ("update", "__ior__") and place(e.recv) == ("attr", obj, "__dict__"):
            return True
        if e.kind == "setattr" and e.recv == obj and e.args and not is_const(e.args[0]):
            return True
        if e.kind == "store" and e.recv == obj and e.name == "__dict__":
            return True
    return False


@prop("C20", 20)
def c20(r):
    r.rule("C20.state", "a copied or pickled signal, relay or callback has every field of the original")
    r.rule("C20.fresh", "the copy has its own new lock")
    r.rule("C20.mode", "the copy delivers in the reemission mode of the original, to its own callbacks")
    r.rule("C20.slots", "the copy has the strongly held callbacks of the original, in order")
    r.rule("C20.owner", "the copy belongs to the object the original belonged to")
    r.rule("C20.idle", "no emission runs on a copy: its emission queue is empty")
    r.rule("C20.own", "a copy shares no list or queue with the original")
    r.rule("C20.key", "a copied callback is found by its function, also in another process")
    r.rule("C20.relay", "a copied relay with callbacks listens to its members")
    r.rule("C20.group", "deep-copying a group makes a new group, bound to the copied owner")
    K = Roles(r)
    R = signal_roles(r)
    K.queue, K.depth = R.emitq, R.depth
    for cname, make in (("SignalInstance", SIG), ("SignalRelay", REL), ("StrongFunction", STR)):
        copied(r, K, cname, make)
    kept_slots(r, K)
    relay_listens(r, K)
    group_copy(r)


def initialised(r, c, name):
    """Does a constructor of the class assign the attribute?"""
    quals = {k.qual for k in c.mro if not isinstance(k, str)}
    return any(isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store) and t.attr == name
               for m in r.p.funcs.values() if m.name == "__init__" and getattr(m.cls, "qual", None) in quals
               for t in ast.walk(m.node))


def copied(r, K, cname, make):
    c = r.p.find_class(cname)
    if c is None or r.p.method(c, "__getstate__") is None or r.p.method(c, "__setstate__") is None:
        r.note(f"{cname} has no __getstate__ / __setstate__ of its own")
        return
    gs, ss = r.p.method(c, "__getstate__"), r.p.method(c, "__setstate__")
    names, boxes, initial = {}, set(), {}
    for x in r.client(("C20", "fields", cname), IMP + "def client(fn):\n" + make + "    return sig\n"):
        if x.kind == "ret":
            for n, v in state_of(x, x.val).items():
                names.setdefault(n, kind(v, x.val))
                initial.setdefault(n, v)
                if v[0] in ("list", "set") or v[0] == "new" and v[1].split(".")[-1] == "deque":
                    boxes.add(n)
    r.need(names, f"the fields of {cname} could not be found")
    plain = [n for n, k in names.items() if k == "plain" and n != K.S]
    setup = "".join(f"    sig.{n} = p_{n}\n" for n in plain)
    text = (IMP + f"def client(fn, {', '.join('p_' + n for n in plain)}):\n" + make + setup +
            f"    two = {cname}.__new__({cname})\n    two.__setstate__(sig.__getstate__())\n"
            "    return sig, two\n")
    n = 0
    for x in r.client(("C20", "copy", cname), text):
        if x.kind != "ret":
            continue
        one, two = x.val[1]
        st, was = state_of(x, two), state_of(x, one)
        loose = opaque_restore(x, two)
        n += 1
        for f, k in names.items():
            v = st.get(f)
            if v is None:
                if loose or r.p.lookup(c, f) is not None and not initialised(r, c, f):
                    r.note(f"{cname}.{f}: bulk restore not followed")
                else:
                    r.fail("C20.state", f"{cname}.{f}", f"a copied {cname} has no {f}", gs.node, gs)
                continue
            if f in boxes:
                r.ob("C20.own", f"{cname}.{f}", place(v) not in (P_("p_" + f), was.get(f)),
                     f"a copied {cname} has the same {f} as the original: what one of them does to it happens to "
                     "the other", gs.node, gs)
            if cname != "StrongFunction" and f == K.queue:
                r.ob("C20.idle", f"{cname}.{f}", not contains(x, v, P_("p_" + f)), f"{f} of a copied {cname} has "
                     "the arguments of the emission running on the original: the copy can never emit them", gs.node, gs)
            elif cname != "StrongFunction" and v == C(0) and initial.get(f) == C(0):
                r.ob("C20.idle", f"{cname}.{f}", True)
            elif cname == "StrongFunction" and any(t[0] == "call" and "object_key" in show(t[1])
                                                   for t in walk(initial.get(f) or NONE)):
                # made from the identity of the function: another one where the copy is made
                r.ob("C20.key", f"{cname}.{f}", any(
                    t[0] == "call" and t[1:2] and "object_key" in show(t[1]) for t in walk(v)) and any(
                    t[0] == "param" and t[1] not in ("p_" + f, "*args") for t in walk(v)),
                     f"{f} of a copied {cname} is {show(v)}: in another process it does not name the function any "
                     "more", ss.node, ss)
            elif k == "plain" and f != K.S:
                r.ob("C20.state", f"{cname}.{f}", contains(x, v, P_("p_" + f)), f"{f} of a copied "
                     f"{cname} is {show(v)} instead of the original's", gs.node, gs)
            elif k == "lock":
                r.ob("C20.fresh", f"{cname}.{f}", kind(v, two) == "lock" and v != was.get(f) and v[1]
                     == was.get(f, v)[1], f"{f} of a copied {cname} is {show(v)}, not a lock of its own",
                     ss.node, ss)
            elif k == "bound":
                r.ob("C20.mode", f"{cname}.{f}:self", v[0] == "bound" and v[1] == two, f"{f} of a copied "
                     f"{cname} is {show(v)}, not a method of the copy", ss.node, ss)
    if not n:
        r.note(f"copying a {cname} not decided")
    if "bound" not in names.values():
        return
    for mode in modes(r):
        text = (IMP + f"def client(o):\n    sig = SignalInstance((int,), instance=o, reemission={mode!r})\n"
                f"    two = SignalInstance.__new__(SignalInstance)\n"
                "    two.__setstate__(sig.__getstate__())\n    return sig, two, two.instance\n")
        for x in r.client(("C20", "mode", mode), text):
            if x.kind != "ret":
                continue
            one, two, own = x.val[1]
            st, was = state_of(x, two), state_of(x, one)
            for f, k in names.items():
                if opaque_restore(x, two):
                    break
                if k == "bound" and f in st and f in was and st[f][0] == "bound":
                    r.ob("C20.mode", f"{f}:{mode}", st[f][2] == was[f][2], f"a copied signal with "
                         f"reemission {mode!r} delivers with {st[f][2].split('.')[-1]}", ss.node, ss)
            none = fact(x, lambda a: a[1] == "is" and place(a[2]) == P_("o") and a[3] == NONE)
            if none is None:
                continue
            dead = any(a[1] == "is" and p and a[3] == NONE and place(a[2]) != P_("o")
                       for a, p, _ in x.facts)
            if opaque_restore(x, two):
                continue
            about = any(u == P_("o") for u in walk(own))  # (a path where o is None is about None)
            ok = own == NONE or about if none or dead else about
            r.ob("C20.owner", mode, ok, f"the instance of a copied signal is {show(own)}", ss.node, ss)


def modes(r):
    c = r.p.find_class("ReemissionMode")
    out = []
    if c is not None:
        for v in c.attrs.values():
            if isinstance(v, ast.Constant) and isinstance(v.value, str):
                out.append(v.value)
    return out or ["immediate", "queued", "latest-only"]


def kept_slots(r, K):
    c = r.p.find_class("SignalInstance")
    gs = r.p.method(c, "__getstate__")
    if gs is None:
        return
    text = (IMP + "def client(f1, f2, f3):\n" + SIG + "    a = StrongFunction(f1)\n"
            "    b = WeakFunction(f2)\n    c = StrongFunction(f3)\n"
            f"    sig.{K.S} = [a, b, c]\n"
            "    two = SignalInstance.__new__(SignalInstance)\n    two.__setstate__(sig.__getstate__())\n"
            "    return two, a, c\n")
    n = 0
    for x in r.client(("C20", "slots"), text):
        if x.kind != "ret":
            continue
        two, a, c_ = x.val[1]
        v = state_of(x, two).get(K.S)
        el = x.st.heap.get((v, "$elts")) if v is not None else None
        if el is None or not all(e[0] == "item" for e in el):
            continue
        n += 1
        r.ob("C20.slots", "kept", [e[1] for e in el if e[1] in (a, c_)] == [a, c_], "a copied signal "
             f"does not have the strongly held callbacks in order: {[show(e[1]) for e in el]}",
             gs.node, gs)
    if not n:
        r.note("callbacks of a copy not decided")


def relay_listens(r, K):
    c = r.p.find_class("SignalRelay")
    ss = c and r.p.method(c, "__setstate__")
    if not ss:
        return
    text = (IMP + "class Member(SignalInstance):\n    def connect(self, slot=None, **kw):\n"
            "        self.log.append(slot)\n        return slot\n"
            "def client(f1):\n    m = Member((int,), name='a')\n    m.log = []\n"
            "    sig = SignalRelay({'a': m})\n    a = StrongFunction(f1)\n"
            "    two = SignalRelay.__new__(SignalRelay)\n%s"
            "    two.__setstate__(sig.__getstate__())\n    return two, m.log\n")
    for how, code, want in (("some", f"    sig.{K.S} = [a]\n", True), ("none", "", False)):
        n = 0
        for x in r.client(("C20", "relay", how), text % code):
            if x.kind != "ret":
                continue
            el = x.st.heap.get((x.val[1][1], "$elts"))
            if el is None or any(a[1] == "hasattr" and not p for a, p, _ in x.facts):
                continue
            n += 1
            r.ob("C20.relay", how, bool(el) if want else True, "a copied relay that has callbacks does "
                 "not listen to its members", ss.node, ss)
            for e in el:
                if e[0] == "item":
                    t = place(e[1])
                    r.ob("C20.relay", "self", t[0] != "bound" or t[1] == x.val[1][0], "a copied relay "
                         "connects the original to the members", ss.node, ss)
        if not n:
            r.note("relay of a copy not decided")


def group_copy(r):
    g = r.p.find_class("SignalGroup")
    f = g and r.p.method(g, "__deepcopy__")
    if not f:
        r.note("groups have no __deepcopy__ of their own")
        return
    memo = P_(f.node.args.args[1].arg)
    for x in r.run(f, g):
        if x.kind != "ret":
            continue
        v = place(x.val)
        new = v[0] == "obj" and v != SELF or v[0] == "call"
        r.ob("C20.group", "new", new and v != SELF, f"deep-copying a group returns {show(v)}",
             f.node, f)
        mk = [e for e, _ in deep(x.events) if e.kind in ("call", "alloc") and e.res == x.val
              or e.kind == "alloc" and e.recv == x.val]
        for e in mk:
            inst = e.arg(0, "instance")
            if inst is None:
                r.fail("C20.group", "owner", "the copy of a group has no owner", e.node, e.func)
                continue
            ts = list(walk(inst))
            own = any(u[0] == "attr" and u[2] in ("instance", "_instance") for u in ts)
            r.ob("C20.group", "owner", own or memo in [place(u) for u in ts],
                 f"the copy of a group belongs to {show(inst)}", e.node, e.func)
            aware = memo in [place(u) for u in ts] or any(memo in [place(u) for u in walk(a)]
                                                          for a, _, _ in x.facts)
            r.ob("C20.group", "memo", aware, "the copy of a group stays bound to the original owner "
                 "although that is being copied", e.node, e.func)


OWN = ("class Plain:\n    pass\nclass Slotted:\n    def __setattr__(self, name, value):\n"
       "        raise AttributeError(name)\n")
#: reading the signature is followed, building one is not
OPAQUE = {"noise": False, "opaque": NOISE - {"signature"}}
OPTS = ("name", "description", "check_nargs_on_connect", "check_types_on_connect")


@prop("C21", 15)
def c21(r):
    r.rule("C21.options", "the signal an object gets is like a SignalInstance made with the declared "
                          "signature and options")
    r.rule("C21.name", "its name is the given one, or that of the class attribute")
    r.rule("C21.same", "an object gets one signal: it is stored on the object, or remembered")
    r.rule("C21.evict", "a remembered signal is forgotten when its object goes, so a new object at the "
                        "same address gets its own")
    r.rule("C21.weak", "a signal does not keep its object alive")
    r.rule("C21.class", "on the class the declaration itself is returned")
    K = Roles(r)
    s = r.p.find_class("Signal")
    r.need(s and r.p.method(s, "__get__"), "Signal.__get__ is gone")
    f = r.p.method(s, "__get__")
    declared(r, K, f)
    names(r, f, s)
    remembered(r, f, s)
    owner_ref(r)


def declared(r, K, f):
    init = r.p.method(r.p.find_class("SignalInstance"), "__init__")
    mine = {a.arg for a in init.node.args.kwonlyargs + init.node.args.args}
    sinit = r.p.method(r.p.find_class("Signal"), "__init__")
    theirs = {a.arg for a in sinit.node.args.kwonlyargs + sinit.node.args.args}
    opts = [o for o in sorted(mine & theirs) if o not in ("self", "reemission", "name")]
    for o in OPTS[1:]:
        if o not in opts:
            r.note(f"option {o} is not declared")
    kw = ", ".join(f"{o}=p_{o}" for o in opts)
    for mode in modes(r):
        text = (IMP + f"def client(o, sg, {', '.join('p_' + o for o in opts)}):\n"
                f"    s = Signal(sg, name='n', {kw}, reemission={mode!r})\n"
                f"    ref = SignalInstance(sg, name='n', instance=o, {kw}, reemission={mode!r})\n"
                "    got = s.__get__(o, None)\n    return ref, got, s, s.__get__(None, None), ref.instance, got.instance\n")
        n = 0
        for x in r.client(("C21", "opts", mode), text, **OPAQUE):
            if x.kind != "ret":
                continue
            ref, got, s, cl, own0, own = x.val[1]
            none = fact(x, lambda a: a[1] == "is" and place(a[2]) == P_("o") and a[3] == NONE)
            r.ob("C21.class", "returns", cl == s, f"a signal accessed on the class is {show(cl)}",
                 f.node, f)
            if none or got[0] != "obj" or any(
                    a[1] == "isinstance" and a[2] == P_("sg") and p != show(a[3]).endswith("Signature")
                    for a, p, _ in x.facts):
                continue
            n += 1
            if any(u == P_("o") for u in walk(own0)):
                r.ob("C21.options", "instance", any(u == P_("o") for u in walk(own)), "the instance of a "
                     f"declared signal is {show(own)}", f.node, f)
            a, b = state_of(x, ref), state_of(x, got)
            for fld, v in a.items():
                k = kind(v, ref)
                w = b.get(fld)
                if w is None:
                    continue
                if k == "plain" and (v, "$elts") not in x.st.heap and v[0] != "new":
                    same = no_uid(v) == no_uid(w)
                    if not same and any(u[0] == "attr" and u[1] in (s, ref, got) for u in walk(w)):
                        continue            # a field that opaque code could have changed
                    r.ob("C21.options", fld, same, f"{fld} of a declared signal is {show(w)}; declared "
                         f"{show(v)}", f.node, f)
                elif k == "bound":
                    r.ob("C21.options", f"{fld}:{mode}", w[0] == "bound" and w[2] == v[2],
                         f"a signal declared with reemission {mode!r} delivers with {show(w)}",
                         f.node, f)
        if not n:
            r.note(f"declared signals ({mode}) not decided")


def names(r, f, s):
    if r.p.method(s, "__set_name__") is None:
        r.note("no __set_name__")
        return
    g = r.p.method(s, "__set_name__")
    for how, decl, want in (("attribute", "Signal(int)", C("attr")),
                            ("given", "Signal(int, name='mine')", C("mine"))):
        text = (IMP + OWN + f"def client():\n    o = Plain()\n    s = {decl}\n"
                "    s.__set_name__(Plain, 'attr')\n"
                "    got = s.__get__(o, Plain)\n    return o, got, got.name\n")
        n = 0
        for x in r.client(("C21", "name", how), text, **OPAQUE):
            if x.kind != "ret" or x.val[1][1][0] != "obj":
                continue
            n += 1
            o, got, nm = x.val[1]
            r.ob("C21.name", how, nm == want, f"a signal declared as attribute 'attr'"
                 f"{'' if how == 'attribute' else ' with name mine'} is named {show(nm)}", g.node, g)
            st = state_of(x, o)
            kept = any(e.kind == "setitem" and got in e.args for e, _ in deep(x.events))
            r.ob("C21.same", how, st.get("attr") == got or got not in st.values() or kept,
                 "the signal is stored on its object under another name than that of the "
                 "declaration, so that the next access makes another one", f.node, f)
        if not n:
            r.note(f"name of a declared signal ({how}) not decided")


def remembered(r, f, s):
    for how in ("Plain", "Slotted"):
        text = (IMP + OWN + f"def client():\n    o = {how}()\n    s = Signal(int, name='n')\n"
                "    one = s.__get__(o, None)\n    two = s.__get__(o, None)\n    return s, one, two, o\n")
        n = 0
        for x in r.client(("C21", "twice", how), text, **OPAQUE):
            if x.kind == "raise":
                if how == "Slotted":
                    ex = x.val[1] if x.val[0] == "exc" else None
                    r.ob("C21.same", "refused", not (ex and ex[1].endswith("AttributeError")),
                         "the signal of an object that cannot store attributes cannot be accessed",
                         f.node, f)
                continue
            if x.kind != "ret":
                continue
            s_, one, two, o = x.val[1]
            kept = [e for e, _ in deep(x.events) if e.kind in ("setitem", "call") and e.recv is not None
                    and (e.kind == "setitem" or e.name in ("setdefault", "__setitem__")) and one in e.args]
            n += 1
            if any(e.kind == "store" and e.recv == o and one in e.args for e in x.events):
                continue            # the attribute of the object hides the descriptor from now on
            r.ob("C21.same", "again:" + how, two == one, "every access to the signal of an object makes "
                 "a new one", f.node, f)
            for e in kept:
                evicted(r, x, e, o)
        if not n:
            r.note(f"remembering signals ({how}) not decided")


def evicted(r, x, e, o):
    key = e.args[0]
    if not (key[0] == "call" and show(key[1]).endswith("id")):
        return
    fin = [d for d, _ in deep(x.events) if d.kind == "call" and d.name in ("finalize", "ref") and d.args
           and d.args[0] == o and len(d.args) > 1]
    r.ob("C21.evict", "finalizer", bool(fin), "a signal remembered by the id of its object is "
         "never forgotten: a later object at the same address gets it", e.node, e.func)
    for d in fin:
        if d.name != "finalize" or d.args[1][0] not in ("attr", "bound"):
            r.note("finalizer of remembered signals not decided")
            continue
        r.ob("C21.evict", "entry", key in d.args[2:] and d.args[1][2].split(".")[-1] in (
            "pop", "__delitem__"), "the finalizer does not remove the entry of the object",
            d.node, d.func)


def owner_ref(r):
    text = IMP + ("def client(o):\n    s = SignalInstance((int,), instance=o)\n    return s, s.instance\n")
    c = r.p.find_class("SignalInstance")
    f = r.p.method(c, "__init__")
    for x in r.client(("C21", "weak"), text):
        if x.kind != "ret":
            continue
        none = fact(x, lambda a: a[1] == "is" and place(a[2]) == P_("o") and a[3] == NONE)
        own = x.val[1][1]
        if none:
            r.ob("C21.weak", "none", own in (NONE, P_("o")), f"a signal without object belongs to {show(own)}", f.node, f)
            continue
        failed = any(e.kind == "call" and e.name == "ref" and (e.extra or {}).get("raised")
                     for e in x.events)
        strong = own == P_("o") or any(v == P_("o") for n, v in state_of(x, x.val[1][0]).items())
        r.ob("C21.weak", "strong" if failed else "weak", failed or not strong, "a signal keeps its "
             "object alive although that can be referenced weakly", f.node, f)
        if failed:
            r.ob("C21.weak", "kept", own == P_("o"), "a signal of an object that cannot be referenced "
                 f"weakly belongs to {show(own)}", f.node, f)


CB = ("class Cb(WeakCallback):\n    def __init__(self, p):\n        self.priority = p\n"
      "        self._max_args = None\n"
      "    def cb(self, args=()):\n        self.seen = Signal.current_emitter()\n"
      "        self.obj = Signal.sender()\n"
      "class Nest(Cb):\n    def cb(self, args=()):\n        self.before = Signal.current_emitter()\n"
      "        self.inner.%s((4,))\n        self.after = Signal.current_emitter()\n")


@prop("C22", 6)
def c22(r):
    r.rule("C22.emitter", "while a callback runs, current_emitter() is the signal delivering to it and "
                          "sender() the object that signal belongs to")
    r.rule("C22.nested", "after a nested emission of another signal the outer one is current again")
    r.rule("C22.thread", "what is emitting is recorded per thread")
    r.rule("C22.idle", "outside of emissions there is no emitter and no sender")
    K = Roles(r)
    s = r.p.find_class("Signal")
    for m in ("current_emitter", "sender"):
        r.need(r.p.method(s, m), f"Signal.{m} is gone")
    f = r.p.method(s, "current_emitter")
    cb = CB % K.dn
    for mode in modes(r):
        text = (IMP + cb + f"def client(o):\n    sig = SignalInstance((int,), instance=o, reemission={mode!r})\n"
                f"    c = Cb(0)\n    sig.{K.S} = [c]\n    sig.{K.dn}((1,))\n"
                "    return sig, c.seen, c.obj, Signal.current_emitter()\n")
        n = 0
        for x in r.client(("C22", mode), text):
            if x.kind != "ret":
                continue
            sig, seen, obj, after = x.val[1]
            if seen[0] not in ("obj", "const"):
                continue            # not called on this path, or not followed (queued)
            n += 1
            r.ob("C22.emitter", mode, seen == sig, f"in a callback current_emitter() is {show(seen)}",
                 f.node, f)
            none = fact(x, lambda a: a[1] == "is" and place(a[2]) == P_("o") and a[3] == NONE)
            dead = none or any(a[1] == "is" and p and a[3] == NONE for a, p, _ in x.facts if
                               place(a[2]) != P_("o") and "ref" in show(a[2]))
            g = r.p.method(s, "sender")
            if none is not None and not (dead and not none):
                ok = obj in (NONE, P_("o")) if none else any(u == P_("o") for u in walk(obj))
                r.ob("C22.emitter", mode + ":sender", ok, f"in a callback sender() is {show(obj)}",
                     g.node, g)
        if not n:
            r.note(f"current emitter ({mode}) not decided")
    text = (IMP + cb + "def client():\n    sig = SignalInstance((int,))\n"
            "    two = SignalInstance((str,))\n    c = Nest(0)\n    d = Cb(0)\n    c.inner = two\n"
            f"    sig.{K.S} = [c]\n    two.{K.S} = [d]\n    sig.{K.dn}((1,))\n"
            "    return sig, two, c.before, c.after, d.seen\n")
    n = 0
    for x in r.client(("C22", "nest"), text, recurse=2):
        if x.kind != "ret":
            continue
        sig, two, before, after, seen = x.val[1]
        if any(t[0] not in ("obj", "const") for t in (before, after, seen)):
            continue
        n += 1
        r.ob("C22.nested", "outer", before == sig and after == sig, "after a nested emission the "
             f"current emitter is {show(after)}", f.node, f)
        r.ob("C22.nested", "inner", seen == two, "in a nested emission the current emitter is "
             f"{show(seen)}", f.node, f)
    if not n:
        r.note("nested emissions not decided")
    again(r, K, f, cb)
    itself(r, K, f, cb)
    per_thread(r, K, s)


def itself(r, K, f, cb):
    """A signal emitted again by its own callback."""
    for mode in modes(r):
        text = (IMP + cb + "class Own(Cb):\n    n = 0\n    def cb(self, args=()):\n        self.n += 1\n"
                f"        if self.n == 1:\n            self.sig.{K.dn}((4,))\n"
                "            self.last = Signal.current_emitter()\n"
                "        else:\n            self.deep = Signal.current_emitter()\n"
                f"def client():\n    sig = SignalInstance((int,), reemission={mode!r})\n"
                f"    c = Own(0)\n    c.sig = sig\n    sig.{K.S} = [c]\n    sig.{K.dn}((1,))\n"
                "    return sig, c.deep, c.last, Signal.current_emitter()\n")
        for x in r.client(("C22", "itself", mode), text, recurse=3):
            if x.kind != "ret":
                continue
            sig, deepest, last, _ = x.val[1]
            if any(t[0] not in ("obj", "const") for t in (deepest, last)):
                continue
            r.ob("C22.nested", "itself", deepest == sig and last == sig, "when a callback emits its own signal again, "
                 f"current_emitter() is {show(deepest)} in that emission and {show(last)} after it", f.node, f)


def again(r, K, f, cb):
    """A signal emitted again, by a callback of a signal that one of its callbacks emitted."""
    text = (IMP + cb + "class Back(Cb):\n    n = 0\n    def cb(self, args=()):\n        self.n += 1\n"
            "        if self.n == 1:\n"
            f"            self.inner.{K.dn}((4,))\n            self.last = Signal.current_emitter()\n"
            "        else:\n            self.deep = Signal.current_emitter()\n"
            "def client():\n    sig = SignalInstance((int,), reemission='immediate')\n"
            "    two = SignalInstance((str,), reemission='immediate')\n    c = Back(0)\n    d = Nest(0)\n"
            "    c.inner = two\n    d.inner = sig\n"
            f"    sig.{K.S} = [c]\n    two.{K.S} = [d]\n    sig.{K.dn}((1,))\n"
            "    return sig, two, c.deep, d.before, d.after, c.last\n")
    n = 0
    for x in r.client(("C22", "again"), text, recurse=3):
        if x.kind != "ret":
            continue
        sig, two, deepest, before, after, last = x.val[1]
        if any(t[0] not in ("obj", "const") for t in (deepest, before, after, last)):
            continue
        n += 1
        r.ob("C22.nested", "again", deepest == sig, "when a callback of another signal emits the first "
             f"again, the current emitter is {show(deepest)}", f.node, f)
        r.ob("C22.nested", "back", before == two and after == two and last == sig, "after nested emissions "
             f"the current emitters are {show(after)} and {show(last)}", f.node, f)
    if not n:
        r.note("signals emitted again not decided")


def per_thread(r, K, s):
    c = r.p.find_class("SignalInstance")
    f = r.p.method(c, K.dn)
    seen = set()
    for x in r.run(f, c):
        for e, _ in deep(x.events):
            if e.kind in ("store", "setitem") and SELF in e.args and e.recv is not None and e.recv != SELF:
                seen.add((e.name if e.kind == "store" else None, e.recv, e.node, e.func))
    for n, b, node, func in seen:
        b = place(b)
        how = owner_kind(r, b)
        if how is None:
            r.note(f"where the emitter is recorded ({show(b)}) not decided")
        else:
            r.ob("C22.thread", "local", how, f"the emitter is recorded in {show(b)}, which all threads "
                 "share", node, func)
    if not seen:
        r.note("no record of the emitter found")
    g = r.p.method(s, "sender")
    h = r.p.method(s, "current_emitter")
    for fn in (h, g):
        for x in r.run(fn, s, noise=True):
            no = any(a[1] == "hasattr" and not p for a, p, _ in x.facts)
            if no:
                r.ob("C22.idle", fn.name, x.kind == "ret" and (x.val == NONE or x.val[:2] == ("op", "getattr")),
                     f"{fn.name}() of a thread that never emitted gives {show(x.val)}", fn.node, fn)


def owner_kind(r, b):
    """True: one per thread; False: shared by all threads; None: unknown."""
    if b[0] == "cls":
        return False
    if b[0] == "glob":
        mod, _, name = b[1].rpartition(".")
        m = r.p.modules.get(mod)
        if m is None:
            return None
        for st in m.tree.body:
            tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(
                st, ast.AnnAssign) and st.value is not None else []
            if any(isinstance(t, ast.Name) and t.id == name for t in tg):
                v = st.value
                if isinstance(v, ast.Call):
                    fn = ast.unparse(v.func)
                    if fn.split(".")[-1] in ("local",):
                        return True
                    cl = r.p.find_class(fn)
                    if cl is not None:
                        return any(isinstance(q, str) and q.split(".")[-1] in ("local", "_local")
                                   for q in cl.mro)
                    if fn.split(".")[-1] in ("dict", "list", "SimpleNamespace", "object"):
                        return False
                if isinstance(v, (ast.Dict, ast.List, ast.Constant)):
                    return False
        return None
    return None
