"""C31, C34, C35: evented objects (assignment, signals of fields, their group)."""

from __future__ import annotations

import ast

from ..q import deep, place
from ..terms import C, NONE, cval, ext, is_const, show, strip_ver, walk
from . import prop
from .state import P_, elts

IMP = '''from psygnal import Signal, SignalInstance
from psygnal._group import SignalGroup
from psygnal._group_descriptor import SignalGroupDescriptor, evented_setattr
class Sig:
    def __init__(self, n):
        self.n = n
        self.log = []
    def emit(self, *args, **kw):
        self.log.append(args)
    def __len__(self):
        return self.n
class G(SignalGroup):
    def __init__(self, sigs, aliases):
        self._psygnal_instances = sigs
        self._psygnal_aliases = aliases
class Plain:
    def __init__(self):
        self.log = []
def raw(self, name, value):
    self.log.append((name, value))
    object.__setattr__(self, name, ("stored", value))
def same(self, name, value):
    self.log.append((name, value))
def bad(self, name, value):
    self.log.append((name, value))
    raise ValueError(value)
'''
WORLD = {"opaque_classes": ()}


def client(r, key, body, args="old, val"):
    text = IMP + f"def client({args}):\n    o = Plain()\n    o.a = old\n{body}"
    return r.client(("C31", key), text, **WORLD)


def verdict(x, old, new):
    """Do the comparisons made find the values equal?"""
    out = None
    for a, p, _ in x.facts:
        if a[1] in ("truth", "truthv", "==", "is"):
            ts = {t for q in a[2:] if isinstance(q, tuple) for t in walk(q)}
            if old in ts and new in ts:
                out = p
    return out


def infeasible(x, *vals):
    """Paths on which a value is the private marker of a missing one."""
    return any(a[1] == "is" and p and any(q in vals for q in a[2:4])
               and any(q[0] in ("glob", "new") for q in a[2:4]) for a, p, _ in x.facts)


@prop("C31", 8)
def c31(r):
    r.rule("C31.assign", "assigning a field assigns it, once, with the value given")
    r.rule("C31.event", "the field's signal emits (new, old) once exactly when the comparison of the new "
                        "and old values finds a difference")
    r.rule("C31.operator", "the comparison set for the field decides")
    r.rule("C31.raise", "a comparison that raises does not make the assignment raise")
    r.rule("C31.alias", "the signal of a field is the one of its alias; a field without signal emits nothing")
    r.rule("C31.once", "a __setattr__ patched twice emits once")
    r.rule("C31.other", "assigning anything else assigns it and emits nothing")
    r.rule("C31.inherit", "the patched __setattr__ a class inherits leaves room for its own group and aliases")
    f = r.p.find_func("evented_setattr")
    new, old, val = ("tuple", (C("stored"), P_("val"))), P_("old"), P_("val")
    mk = "    s, t = Sig(1), Sig(1)\n"
    end = "    return s.log, t.log, o.log\n"
    n = 0
    for how, sa in (("plain", "evented_setattr('events', raw)"),
                    ("decorator", "evented_setattr('events')(raw)"),
                    ("no aliases", "evented_setattr('events', raw, with_aliases=False)"),
                    ("twice", "evented_setattr('events', evented_setattr('events', raw))")):
        for what, group, hit in (("name", "G({'a': s, 't': t}, {})", 0),
                                 ("alias", "G({'s': s, 't': t}, {'a': 's'})", 0),
                                 ("swapped", "G({'a': t, 's': s}, {'a': 's'})", 0),
                                 ("absent", "G({'s': s, 't': t}, {})", None),
                                 ("none", "G({'a': s, 't': t}, {'a': None})", None)):
            if how == "no aliases" and what in ("alias", "swapped", "none"):
                continue
            for x in client(r, (how, what), mk + f"    o.events = {group}\n    sa = {sa}\n"
                            "    sa(o, 'a', val)\n" + end):
                n += event(r, x, f, how, what, hit, old, new, val)
    r.need(n, "assigning a field of an evented object could not be followed")
    r.ob("C31.operator", "consulted", getattr(r.p, "_consulted", False), "values are never compared with an "
         "operator looked up for the field", f.node, f)
    for how, body in (("group", "    o.events = G({'events': s, 'a': t}, {})\n"
                       "    sa = evented_setattr('events', raw)\n    sa(o, 'events', val)\n"),
                      ("unheard", "    s = Sig(0)\n    o.events = G({'a': s}, {})\n"
                       "    sa = evented_setattr('events', raw)\n    sa(o, 'a', val)\n")):
        for x in client(r, how, mk + body + end):
            if x.kind != "ret" or infeasible(x, old, new):
                continue
            s, t, log = (elts(x, v) for v in x.val[1])
            name = C("events" if how == "group" else "a")
            r.ob("C31.other", how + ":assign", log == [("tuple", (name, val))], f"assigning "
                 f"{show(name)} stores {[show(e) for e in log or []]}", f.node, f)
            if how == "group":
                r.ob("C31.other", how + ":event", not s and not t, "assigning the group emits an event",
                     f.node, f)
    for x in client(r, "same", mk + "    o.events = G({'a': s}, {})\n"
                    "    sa = evented_setattr('events', same)\n    sa(o, 'a', val)\n" + end):
        s = elts(x, x.val[1][0]) if x.kind == "ret" and not infeasible(x, old) else None
        if s is None:
            continue
        said = [p for a, p, _ in x.facts if a[1] in ("truth", "truthv", "==", "is") and any(
            isinstance(q, tuple) and q[0] != "param" and old in walk(q) or a[1] == "==" for q in a[2:])]
        r.ob("C31.operator", "same object", bool(said) or s == [("tuple", (old, old))], "a field that keeps "
             "its object emits nothing although nothing compared the values", f.node, f)
    inherited(r, f, mk, end, old, new)
    for x in client(r, "bad", mk + "    o.events = G({'a': s}, {})\n"
                    "    sa = evented_setattr('events', bad)\n    sa(o, 'a', val)\n" + end):
        r.ob("C31.assign", "raises", x.kind == "raise" or infeasible(x, old, old), "an assignment that "
             "raises is reported as done", f.node, f)


def inherited(r, f, mk, end, old, new):
    """Classes that inherit a patched __setattr__."""
    want = [("tuple", (new, old))]
    two = ("    o.events = G({'a': s}, {})\n    o.mine = G({'a': t}, {})\n"
           "    sa = evented_setattr('mine', evented_setattr('events', raw))\n    sa(o, 'a', val)\n")
    sub = ("    o.events = G({'a': s}, {})\n    base = evented_setattr('events', raw)\n"
           "    def own(self, name, value):\n        base(self, name, value)\n"
           "    sa = evented_setattr('events', own)\n    sa(o, 'a', val)\n")
    heard = {}
    for how, body in (("groups", two), ("super", sub)):
        for x in client(r, ("inherited", how), mk + body + end):
            if x.kind != "ret" or infeasible(x, old, new):
                continue
            s, t, log = (elts(x, v) for v in x.val[1])
            if s is None or t is None or log is None:
                r.note(f"events of inherited patches ({how}) not decided")
                continue
            r.ob("C31.assign", how, log == [("tuple", (C("a"), P_("val")))], "assigning a field stores "
                 f"{[show(e) for e in log]}", f.node, f)
            if how == "groups":
                for name, got in (("base", s), ("own", t)):
                    heard[name] = heard.get(name, False) or got == want
                    r.ob("C31.inherit", name, got in (want, []), "with a group of the base class and one of its own, "
                         f"the {name} group emits {[show(e) for e in got]} for one assignment", f.node, f)
            else:
                r.ob("C31.once", "super", len(s) <= 1, "when a class overrides the patched __setattr__ of its "
                     "base and calls it, an assignment emits twice", f.node, f)
    for name, ok in heard.items():
        r.ob("C31.inherit", name + " heard", ok, f"in a class with a group of its base class and one of its own, the "
             f"{name} group never emits", f.node, f)
    c = r.p.find_class("SignalGroupDescriptor")
    n = 0
    for m in c.methods.values():
        if not any(isinstance(k, ast.Name) and k.id == "_build_dataclass_signal_group" for k in ast.walk(m.node)):
            continue
        for x in r.run(m, c, opaque={"evented_setattr", "_build_dataclass_signal_group"}):
            for e, _ in deep(x.events):
                if e.kind == "call" and e.name == "evented_setattr":
                    n += 1
                    v = e.arg(2, "with_aliases") or C(True)
                    own = any(k[0] == "attr" and "alias" in str(k[2]) for k in walk(v))
                    if not is_const(v) and not own:
                        r.note("whether the patch looks for aliases is not decided")
                        continue
                    r.ob("C31.inherit", "aliases", v == C(True), "whether the patched __setattr__ of a class looks for "
                         "aliases depends on the aliases of that class, but its subclasses inherit it",
                         e.node, e.func)
    if not n:
        r.note("how classes are patched is not decided")


def event(r, x, f, how, what, hit, old, new, val):
    if infeasible(x, old, new):
        return 0
    if x.kind == "raise":
        soft = any(a[1] == "isinstance" and a[2] == x.val and not p and a[3] == ext("builtins.Exception")
                   for a, p, _ in x.facts)
        if x.val and not soft:
            r.ob("C31.raise", how, False, f"assigning a field raises {show(x.val)}", f.node, f)
        return 0
    if x.kind != "ret":
        return 0
    logs = [elts(x, v) for v in x.val[1]]
    if any(v is None for v in logs):
        r.note(f"events of {how}/{what} not decided")
        return 0
    s, t, log = logs
    rule = "C31.alias" if what in ("alias", "swapped", "none", "absent") else \
        "C31.once" if how == "twice" else "C31.event"
    r.ob("C31.assign", f"{how}:{what}", log == [("tuple", (C("a"), val))], "assigning a field stores "
         f"{[show(e) for e in log]}", f.node, f)
    r.ob("C31.alias", f"{how}:{what}:other", not t, "the signal of another field emits", f.node, f)
    if hit is None:
        r.ob("C31.alias", f"{how}:{what}", not s, "a field without signal emits", f.node, f)
        return 1
    same = verdict(x, old, new)
    want = [("tuple", (new, old))]
    if same is None:
        r.ob(rule, f"{how}:{what}:compared", s in ([], want), f"an assignment emits {[show(e) for e in s]}",
             f.node, f)
        if not s:
            r.ob(rule, f"{how}:{what}:missed", False, "an assignment emits nothing although nothing "
                 "compared the values", f.node, f)
        return 1
    r.ob(rule, f"{how}:{what}:{'same' if same else 'changed'}", s == ([] if same else want),
         f"assigning {'an equal' if same else 'another'} value emits {[show(e) for e in s]}", f.node, f)
    seen = [q for a, _, _ in x.facts for q in a[2:] if isinstance(q, tuple)]
    seen += [e.fn for e, _ in deep(x.events) if e.kind == "call" and e.fn]
    if what == "name" and how == "plain" and any(
            f2[0] != "ext" and {old, new} <= {t for q in e.args for t in walk(q)}
            for e, _ in deep(x.events) if e.kind == "call" and e.fn for f2 in [e.fn]):
        r.p._consulted = True
    own = [a[3] for a, p, _ in x.facts if a[1] == "in" and p and a[2] == C("a")]
    for m in own:
        used = any(u[0] == "item" and strip_ver(u[1]) == strip_ver(m) and u[2] == C("a")
                   for q in seen for u in walk(q))
        r.ob("C31.operator", how, used, f"the comparison set for the field in {show(m)} is not used",
             f.node, f)
    return 1


FIELDS = '''import dataclasses
class Fld:
    def __init__(self, name, type, how):
        self.name = name
        self.type = type
        self._field_type = how
class PF:
    def __init__(self, annotation, frozen):
        self.annotation = annotation
        self.frozen = frozen
class K:
    def __init__(self):
        self.n = 1
    def __setattr__(self, n, v):
        object.__setattr__(self, n, v)
class L(K):
    pass
class M:
    def __init__(self):
        self.n = 1
    def __setattr__(self, n, v):
        object.__setattr__(self, n, v)
class Base(SignalGroup):
    pass
def some(n):
    if n == "a":
        return "x"
    if n == "c":
        return None
    return n
def has(cls, *fs):
    cls.__dataclass_fields__ = {f.name: f for f in fs}
'''
ABC = ("    has(K, Fld('a', int, dataclasses._FIELD), Fld('b', str, dataclasses._FIELD), "
       "Fld('c', bool, dataclasses._FIELD))\n")
OWN = {"a": "int", "b": "str", "c": "bool"}


def world(r):
    d = r.p.find_class("SignalGroupDescriptor")
    mine = set()
    for m in d.methods.values():
        for y in ast.walk(m.node):
            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(
                    y.value, ast.Name) and y.value.id == "self":
                mine.add(y.attr)
    return {"opaque_classes": {"Signal"}, "opaque": {"_pick_equality_operator"},
            "preserve": mine | {"__setattr__", "events", "__dataclass_fields__", "model_fields",
                                "__pydantic_fields__", "annotation", "frozen"}}


def get(r, key, setup, body, kw="", args="op, q"):
    text = (IMP + FIELDS + f"def client({args}):\n    Base._psygnal_signals = {{}}\n"
            "    Base._psygnal_aliases = {}\n" + setup +
            f"    d = SignalGroupDescriptor({kw})\n    K.events = d\n"
            "    d.__set_name__(K, 'events')\n    o = K()\n" + body)
    return r.client(("C34", key), text, **world(r))


def made(x):
    """The group classes created: (event, bases, {signal name: Signal}, aliases) of each."""
    for e, _ in deep(x.events):
        if e.kind != "call" or e.name != "type" or len(e.args) != 3:
            continue
        sigs = pairs(x, e.args[2])
        al = dict(e.kw).get("signal_aliases")
        yield e, e.args[1], sigs, pairs(x, al) if al else {}


def pairs(x, d):
    el = x.st.heap.get((d, "$elts"))
    if el is None or any(k != "item" for k, *_ in el):
        return None
    return {cval(v[1][0]) if is_const(v[1][0]) else v[1][0]: v[1][1] for _, v in el}


def types_of(x, sig):
    for e, _ in deep(x.events):
        if e.kind == "alloc" and e.res == sig:
            return [a[1].split(".")[-1] if a[0] == "ext" else show(a) for a in e.args]
    return None


@prop("C34", 8)
def c34(r):
    r.rule("C34.fields", "the group of an evented dataclass has one signal for each field, named by its "
                         "alias or the field, with the field's type for the new and the old value")
    r.rule("C34.skip", "what is no field, or has None as alias, has no signal")
    r.rule("C34.aliases", "the group knows the alias of every field that has one")
    r.rule("C34.operator", "the equality operators given are those of the fields")
    r.rule("C34.base", "the signals the group class defines stay as they are")
    r.rule("C34.decorator", "@evented passes the aliases and operators given on")
    decorated(r, "C34.decorator", ("eq", "al"), ("alias", "eqop"))
    r.rule("C34.frozen", "of a pydantic model the fields that are not frozen are found")
    f = r.p.find_func("_build_dataclass_signal_group")
    base = "signal_group_class=Base"
    n = 0
    for how, kw, want, aliases in (
            ("none", base, {"a": "a", "b": "b", "c": "c"}, {}),
            ("mapping", base + ", signal_aliases={'a': 'x', 'c': None}", {"x": "a", "b": "b"},
             {"a": "x", "c": None}),
            ("swapped", base + ", signal_aliases={'a': 'b', 'b': 'a'}", {"b": "a", "a": "b", "c": "c"},
             {"a": "b", "b": "a"}),
            ("function", base + ", signal_aliases=some", {"x": "a", "b": "b"}, {"a": "x", "c": None}),
            ("class", base, {"y": "a", "c": "c"}, {"a": "y", "b": None})):
        setup = ABC + ("    Base._psygnal_aliases = {'a': 'y', 'b': None}\n" if how == "class" else "")
        for x in get(r, how, setup, "    one = d.__get__(o, K)\n    return one\n", kw):
            if x.kind != "ret":
                continue
            for e, bases, sigs, al in made(x):
                if sigs is None or al is None:
                    r.note(f"signals of fields ({how}) not decided")
                    continue
                n += 1
                for s, fld in want.items():
                    ok = s in sigs and types_of(x, sigs[s]) == [OWN[fld]] * 2
                    r.ob("C34.fields", f"{how}:{s}", ok, f"the signal {s} of field {fld} ({OWN[fld]}) is "
                         + (f"of {types_of(x, sigs[s])}" if s in sigs else "missing"), e.node, e.func)
                extra = [show(s) if isinstance(s, tuple) else s for s in sigs if s not in want]
                r.ob("C34.skip", how, not extra, f"signals {extra} for fields without one", e.node, e.func)
                got = {k: cval(v) if is_const(v) else v for k, v in al.items()}
                for k, v in aliases.items():
                    r.ob("C34.aliases", f"{how}:{k}", k in got and got[k] == v, f"the group knows "
                         f"{got.get(k, 'nothing')!s} as the signal of field {k}, not {v}", e.node, e.func)
                for k, v in got.items():
                    r.ob("C34.aliases", f"{how}:{k}:extra", v == aliases.get(k, k), f"the group takes {v!s} "
                         f"for the signal of field {k!s}", e.node, e.func)
    r.need(n, "the signals of an evented dataclass could not be followed")
    n = 0
    for x in get(r, "var", "    has(K, Fld('a', int, dataclasses._FIELD), Fld('b', str, q))\n",
                 "    one = d.__get__(o, K)\n    return one\n", base):
        if x.kind != "ret":
            continue
        isf = None
        for a, p, _ in x.facts:
            if a[1] in ("is", "==") and P_("q") in a[2:4] and any("_FIELD" in show(v) for v in a[2:4]):
                isf = p
        for e, _, sigs, _ in made(x):
            if sigs is not None and isf is not None:
                r.ob("C34.skip", f"classvar:{isf}", ("b" in sigs) == isf and "a" in sigs,
                     f"a {'field' if isf else 'class variable'} has {'a' if 'b' in sigs else 'no'} signal",
                     e.node, e.func)
            elif sigs is not None:
                r.ob("C34.skip", "classvar", "b" not in sigs, "class variables have signals", e.node, e.func)
    operators(r, base)
    own_signals(r, base)
    frozen(r)


def decorated(r, rule, mine, own):
    """@evented gives the class the descriptor the same options make."""
    opts = "equality_operators=eq, warn_on_no_fields=warn, cache_on_instance=cache, signal_aliases=al"
    f = r.p.find_func("evented")
    n = 0
    for how, call, given, name in (
            ("called", f"evented(K, {opts}, events_namespace='ev')", opts, "ev"),
            ("decorator", f"evented({opts}, events_namespace='ev')(K)", opts, "ev"),
            ("bare", "evented(K)", "", "events")):
        for x in r.client(("evented", how), "from psygnal import evented\n"
                          "from psygnal._group_descriptor import SignalGroupDescriptor\nclass K:\n    pass\n"
                          f"def client(eq, warn, cache, al):\n    d = SignalGroupDescriptor({given})\n"
                          f"    L = {call}\n    return d, K.{name}, L, K\n", opaque_classes=(), noise=False):
            if x.kind != "ret":
                continue
            d, e, cls, k = x.val[1]
            r.ob(rule, how + ":class", cls == k, "the decorator does not give the class back", f.node, f)
            want = {a[1]: v for a, v in x.st.heap.items() if a[0] == d}
            if e[0] != "obj" or not want:
                r.note("the descriptor made by the decorator is not followed")
                continue
            for a, v in want.items():
                got = x.st.heap.get((e, a))
                if a.startswith("$") or got is None or got == C(name) or v[0] in ("list", "dict", "set"):
                    continue
                n += 1
                if any(P_(q) in walk(v) for q in mine) or v[0] == "const" and any(o in a for o in own):
                    r.ob(rule, f"{how}:{a}", got == v, f"a class made evented by the decorator has "
                         f"{a.strip('_')} {show(got)}, not {show(v)}", f.node, f)
    if not n:
        r.note("the decorator is not followed")


def operators(r, base):
    given = base + ", equality_operators={'a': op}"
    one = "    one = d.__get__(o, K)\n    return one\n"
    bare = ABC.replace("Fld('a', int,", "Fld('a', None,")
    r.need(bare != ABC, "the fields given to the group descriptor are not known")
    for x in get(r, "op", ABC, one, given) + get(r, "op bare", bare, one, given):
        if x.kind != "ret" or any(
                a[1] == "is" and p and P_("op") in a[2:4] and NONE in a[2:4]
                or a[1] in ("truth", "truthv") and not p and a[2] == P_("op") for a, p, _ in x.facts):
            continue
        last = {}
        for e, _ in deep(x.events):
            if e.kind == "setitem" and len(e.args) == 2 and e.args[0][0] == "const" and not (
                    e.args[1][0] == "obj") and e.recv[0] != "dict":
                last[cval(e.args[0])] = e
        if not last:
            r.note("equality operators not followed")
            continue
        e = last.get("a")
        r.ob("C34.operator", "given", e is not None and e.args[1] == P_("op"), "the equality operator of "
             "field a is not the one given", e.node if e else None, e.func if e else None)
        for k, e in last.items():
            r.ob("C34.operator", f"other:{k}", k == "a" or e.args[1] != P_("op"), f"field {k} gets the "
                 "equality operator of field a", e.node, e.func)
            r.ob("C34.operator", f"class:{k}", ("cls", client_cls(x, "K")) in list(walk(e.recv)) or e.recv[0]
                 not in ("item", "call"), f"the operator of field {k} is stored for another class",
                 e.node, e.func)


def client_cls(x, name):
    for (b, _), _ in x.st.heap.items():
        if b[0] == "cls" and b[1].endswith("." + name):
            return b[1]
    return None


def own_signals(r, base):
    for x in get(r, "own", ABC + "    s = Signal(float)\n    Base._psygnal_signals = {'a': s}\n",
                 "    one = d.__get__(o, K)\n    return one\n", base):
        if x.kind != "ret":
            continue
        for e, bases, sigs, al in made(x):
            if sigs is not None:
                ok = "a" not in sigs and "b" in sigs
                r.ob("C34.base", "kept", ok, "a field replaces a signal the group class defines"
                     if "a" in sigs else "the other fields have no signal", e.node, e.func)
            r.ob("C34.base", "bases", any(t[0] == "cls" and t[1].endswith(".Base") for t in walk(bases)),
                 "the group of the fields does not derive from the group class given", e.node, e.func)


def frozen(r):
    """The group of a pydantic model of which b is frozen, however the descriptor was made."""
    f = r.p.find_func("_build_dataclass_signal_group")
    base = "signal_group_class=Base"
    model = ("    K.model_fields = {'a': PF(int, False), 'b': PF(str, True), 'c': PF(bool, None)}\n"
             "    K.__pydantic_fields__ = K.model_fields\n")
    n = 0
    for how, kw, want in (
            ("plain", base, {"a": "int", "c": "bool"}),
            ("operators", base + ", equality_operators={'a': op}", {"a": "int", "c": "bool"}),
            ("mapping", base + ", signal_aliases={'a': 'x', 'b': 'y'}", {"x": "int", "c": "bool"}),
            ("function", base + ", signal_aliases=some", {"x": "int"}),
            ("instance cache", base + ", cache_on_instance=False", {"a": "int", "c": "bool"}),
            ("no collect", base + ", warn_on_no_fields=False, patch_setattr=False", {"a": "int", "c": "bool"})):
        for x in get(r, "frozen " + how, model, "    one = d.__get__(o, K)\n    return one\n", kw):
            if x.kind != "ret" or not any(a[1] == "issubclass" and p and "BaseModel" in show(a)
                                          for a, p, _ in x.facts):
                continue
            for e, _, sigs, _ in made(x):
                if sigs is None:
                    continue
                n += 1
                r.ob("C34.frozen", how, "b" not in sigs and "y" not in sigs, "a frozen field of a pydantic "
                     "model has a signal", e.node, e.func)
                for s, t in want.items():
                    r.ob("C34.frozen", f"{how}:{s}", s in sigs and types_of(x, sigs[s]) == [t] * 2,
                         f"field {s} ({t}) of a pydantic model has "
                         f"{'a signal of ' + str(types_of(x, sigs[s])) if s in sigs else 'no signal'}",
                         e.node, e.func)
    if not n:
        r.note("the fields of pydantic models not followed")


@prop("C35", 8)
def c35(r):
    r.rule("C35.same", "an object has one group: it is stored on the object, or remembered")
    r.rule("C35.own", "each object has a group of its own, made for it")
    r.rule("C35.owner", "the group has the signals of the class the object is of")
    r.rule("C35.evict", "a remembered group, or group class, is forgotten with its object")
    r.rule("C35.class", "on the class the descriptor itself is returned")
    r.rule("C35.cache", "with cache_on_instance=False nothing is stored on the object")
    r.rule("C35.decorator", "@evented passes cache_on_instance on")
    decorated(r, "C35.decorator", ("cache",), ("cache", "patch"))
    r.rule("C35.patch", "__setattr__ of the class is replaced once, unless patch_setattr is False")
    f = r.p.find_class("SignalGroupDescriptor")
    f = r.p.method(f, "__get__")
    n = 0
    for kw in ("", ", cache_on_instance=False"):
        body = ("    o2 = K()\n    one = d.__get__(o, K)\n    two = d.__get__(o, K)\n"
                "    other = d.__get__(o2, K)\n    return d, o, o2, one, two, other, K.events, d.__get__(None, K)\n")
        for x in get(r, "same" + kw, ABC, body, "signal_group_class=Base" + kw):
            if x.kind != "ret":
                continue
            n += 1
            d, o, o2, one, two, other, k1, k2 = x.val[1]
            if any(p == (a[1] == "is") and a[2] in (one, two, other) and a[1] in ("is", "truth", "truthv")
                   and (a[1] != "is" or a[3] == NONE) for a, p, _ in x.facts):
                continue  # (a group is an object)
            r.ob("C35.class", "class", k1 == d and k2 == d, f"on the class one gets {show(k2)}", f.node, f)
            sto = [e for e, _ in deep(x.events) if e.kind in ("store", "setattr") and e.recv == o and one in e.args]
            if kw:
                r.ob("C35.cache", "stored", not sto, "the group is stored on the object",
                     sto[0].node if sto else f.node, sto[0].func if sto else f)
            if not sto:
                r.ob("C35.same", "again" + kw, one == two, "every access makes a new group", f.node, f)
            r.ob("C35.own", "own" + kw, other != one, "two objects share a group", f.node, f)
            for g, ob, ot in ((one, o, o2), (other, o2, o)):
                if g[0] in ("call", "new", "obj"):
                    a = args_of(x, g)
                    if a is not None:
                        r.ob("C35.own", "owner" + kw, ob in a and ot not in a, "the group of an object is "
                             f"made for {[show(v) for v in a]}", f.node, f)
            for e, _ in deep(x.events):
                if e.kind == "setitem" and one in e.args[1:] or e.kind == "call" and e.name in (
                        "setdefault", "__setitem__") and one in e.args[1:]:
                    evicted(r, "C35.evict", x, e, o)
    r.need(n, "reading the group of an evented object could not be followed")
    owners(r, f)
    patches(r, f)


def args_of(x, g):
    if g[0] in ("call", "new"):
        return [*g[2], *(v for _, v in g[3])]
    v = x.st.heap.get((g, "$args"))
    return [p[1][1] for p in v[1]] if v else None


def evicted(r, rule, x, e, o):
    key = e.args[0]
    if not (key[0] == "call" and show(key[1]).endswith("id")):
        return
    fin = [d for d, _ in deep(x.events) if d.kind == "call" and d.name in ("finalize", "ref") and d.args
           and d.args[0] == o and len(d.args) > 1]
    r.ob(rule, "finalizer", bool(fin), f"what is remembered by id({show(o)}) is never forgotten: a later "
         "object at the same address gets it", e.node, e.func)
    for d in fin:
        if d.name != "finalize" or d.args[1][0] not in ("attr", "bound"):
            r.note("finalizer of remembered groups not decided")
            continue
        r.ob(rule, "entry", key in d.args[2:] and d.args[1][2].split(".")[-1] in ("pop", "__delitem__"),
             "the finalizer does not remove the entry of the object", d.node, d.func)


def owners(r, f):
    setup = ABC + "    has(M, Fld('u', int, dataclasses._FIELD))\n"
    body = ("    o2 = M()\n    one = d.__get__(o, K)\n    other = d.__get__(o2, M)\n    return one, other\n")
    for x in get(r, "owners", setup + "    M.events = 1\n", body, "signal_group_class=Base"):
        if x.kind != "ret":
            continue
        ms = {e.res: s for e, _, s, _ in made(x)}
        for v, want in zip(x.val[1], ({"a", "b", "c"}, {"u"})):
            s = ms.get(v[1]) if v[0] in ("call", "new") else None
            if s is None:
                r.note("group of another class not decided")
                continue
            r.ob("C35.owner", ",".join(sorted(want)), set(s) == want, f"an object of a class with fields "
                 f"{sorted(want)} gets a group with signals {sorted(map(str, s))}", f.node, f)
        for e, _ in deep(x.events):
            if e.kind == "setitem" and len(e.args) == 2 and e.args[1] in ms:
                k = e.args[0]
                for c in ("K", "M"):
                    t = ("cls", client_cls(x, c))
                    if t in walk(k):
                        evicted(r, "C35.evict", x, e, t)


def patches(r, f):
    for kw, times in (("", 1), (", patch_setattr=False", 0)):
        body = ("    p = L()\n    one = d.__get__(o, K)\n    K.mark = 1\n    two = d.__get__(p, L)\n"
                "    return one, two\n")
        for x in get(r, "patch" + kw, ABC, body, "signal_group_class=Base" + kw):
            if x.kind != "ret":
                continue
            k = ("cls", client_cls(x, "K"))
            if any(("attr", k, "__dict__") == place(t) for a, _, _ in x.facts for q in a[2:]
                   if isinstance(q, tuple) for t in walk(q)):
                r.note("patching by the contents of the class not decided")
                continue
            st = [e for e, _ in deep(x.events) if e.kind in ("store", "setattr") and "__setattr__" in (
                e.name, *(cval(a) for a in e.args if is_const(a)))]
            r.ob("C35.patch", "base" + kw, len([e for e in st if e.recv == k]) == times, "__setattr__ of an "
                 f"evented class is replaced {len(st)} times", st[0].node if st else f.node, f)
            now = x.st.heap.get((k, "__setattr__"))
            more = [e for e in st if e.recv != k and now not in e.args]
            r.ob("C35.patch", "derived" + kw, not more, "__setattr__ is replaced again in a subclass that "
                 "inherits the replaced one", more[0].node if more else f.node, f)
