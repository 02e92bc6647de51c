"""C23: EventedModel (assignment, dependents, setters, update, reset, equality, class creation)."""

from __future__ import annotations

import ast

from ..q import covers
from ..terms import C, NONE, ext, show, strip_ver, walk
from . import prop
from .evented import infeasible
from .state import P_, elts

IMP = '''from psygnal._evented_model import EventedModel, _get_field_dependents
from psygnal._group import SignalGroup
class Sig:
    def __init__(self, n):
        self.n = n
        self.log = []
        self.m = None
        self.then = None
    def emit(self, *args, **kw):
        if self.m is None:
            self.log.append(args)
        else:
            self.log.append((args, self.m.a, self.m.b))
        if self.then is not None:
            self.then(*args)
    def __call__(self, *args, **kw):
        self.emit(*args, **kw)
    def __len__(self):
        return self.n
class Relay(Sig):
    def paused(self, *args, **kw):
        return Paused(self)
class Paused:
    def __init__(self, rel):
        self.rel = rel
    def __enter__(self):
        self.rel.log.append("paused")
    def __exit__(self, *a):
        self.rel.log.append("resumed")
class G(SignalGroup):
    def __init__(self, sigs, rel):
        self._psygnal_instances = sigs
        self._psygnal_aliases = {}
        self._psygnal_relay = rel
class Model(EventedModel):
    @property
    def c(self):
        return (self.a, self.b)
    @property
    def d(self):
        return (self.b, self.a)
class Setter:
    def fset(self, m, v):
        m.a = v[0]
        m.b = v[1]
class Twice:
    def fset(self, m, v):
        m.a = v[0]
        m.a = v[1]
class BadSetter:
    def fset(self, m, v):
        m.a = v[0]
        raise ValueError(v)
class Getter:
    def __init__(self, names, settable):
        self.fget = Code(names)
        self.fset = settable
class Code:
    def __init__(self, names):
        self.__code__ = Names(names)
class Names:
    def __init__(self, names):
        self.co_names = names
class Sub(EventedModel):
    def update(self, values, recurse=True):
        self.got.append(("update", values, recurse))
    def reset(self):
        self.got.append(("reset",))
class Fault:
    def __call__(self, *a):
        raise ValueError(a)
class Assign:
    def __init__(self, m, v):
        self.m, self.v = m, v
    def __call__(self, *a):
        self.m.b = self.v
class Field:
    def __init__(self, frozen):
        self.frozen = frozen
'''
EQ = "_check_field_equality"


class World:
    """How a model object looks, derived from the class: its private attributes with their
    defaults, the attribute holding the group, and the setter variants installed."""

    def __init__(self, r):
        self.r = r
        self.cls = r.p.find_class("EventedModel")
        r.need(self.cls, "EventedModel is gone")
        self.private, self.group = [], "_events"
        for s in self.cls.node.body:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.AnnAssign, ast.Assign)) and isinstance(v, ast.Call) \
                    and ast.unparse(v.func).endswith("PrivateAttr"):
                t = s.target if isinstance(s, ast.AnnAssign) else s.targets[0]
                kw = {k.arg: k.value for k in v.keywords}
                if "default_factory" in kw:
                    d = f"({ast.unparse(kw['default_factory'])})()"
                elif v.args or "default" in kw:
                    d = ast.unparse(v.args[0] if v.args else kw["default"])
                else:
                    self.group = t.id
                    continue
                self.private.append((t.id, d))
        self.variants = self.installed()

    def installed(self):
        """{(has dependents?, has setters?): [(attribute, method)…]} as stored by the metaclass."""
        r = self.r
        out = {(d, s): [] for d in (True, False) for s in (True, False)}
        meta = r.p.find_class("EventedMetaclass")
        f = meta and r.p.method(meta, "__new__")
        r.need(f, "the metaclass of EventedModel is gone")
        self.new = f
        self.paths = [x for x in r.run(f, meta, noise=False, opaque=("_pick_equality_operator", "validate"))]
        names = {m.name for m in r.p.funcs.values() if m.cls is self.cls or
                 getattr(m.cls, "qual", None) == self.cls.qual}
        self.names = names
        for x in self.paths:
            if x.kind != "ret":
                continue
            st = []
            for e in x.events:
                if e.kind == "store" and e.name in names:
                    v = e.args[0]
                    st.append((e.name, v[2] if v[0] == "attr" else show(v).rpartition(".")[2]))
            if lacking(x, names):
                continue
            has = depend(x), depend(x, "__property_setters__")
            for k in out:
                if all(h in (want, None) for h, want in zip(has, k)) and st and tuple(st) not in out[k]:
                    out[k].append(tuple(st))
        return out

    def text(self, args, body, deps="{}", setters="{}", ops="{}", sigs="{'a': s, 'b': t, 'c': u, 'd': w}",
             eq=None, cls="Model"):
        variant = self.variants[deps != "{}", setters != "{}"]
        lines = [f"def client({args}):", f"    m = {cls}.__new__({cls})"]
        lines += [f"    object.__setattr__(m, '{k}', {v})" for k, v in self.private]
        lines += [f"    {cls}.__property_setters__ = {setters}",
                  f"    {cls}.__eq_operators__ = {ops}",
                  f"    {cls}.__field_dependents__ = {deps}"]
        for a, b in (variant[0] if variant else ()):
            lines.append(f"    {cls}.{a} = {cls}.{b}")
        lines += ["    object.__setattr__(m, 'a', old)", "    object.__setattr__(m, 'b', b)",
                  "    s, t, u, w, rel = Sig(1), Sig(1), Sig(1), Sig(1), Relay(1)",
                  f"    object.__setattr__(m, '{self.group}', G({sigs}, rel))"]
        return IMP + "\n".join(lines) + "\n" + "".join(f"    {b}\n" for b in body)

    def run(self, key, args, body, opaque=(EQ,), **kw):
        return self.r.client(("C23", key), self.text(args, body, **kw), opaque_classes=(),
                             opaque=opaque, noise=False, recurse=8)


def lacking(x, names):
    """Is a method EventedModel has assumed to be absent?"""
    return any(a[1] == "hasattr" and not p and a[3][0] == "const" and a[3][2] in names for a, p, _ in x.facts)


def depend(x, name="__field_dependents__"):
    """Was the mapping of dependents (or setters) found non-empty on this path of the metaclass?"""
    dep = [e.args[0] for e in x.events if e.kind == "store" and e.name == name]
    if dep and x.st.heap.get((dep[-1], "$elts")) == ():
        return False
    for a, p, _ in x.facts:
        if a[1] in ("truth", "truthv") and (a[2] in dep or name in show(a[2])[-len(name) - 2:]):
            return p
    return None


def shallow(t):
    """Sub-terms, not those inside tuples."""
    yield t
    if t[0] == "tuple":
        return
    for q in t[1:]:
        if isinstance(q, tuple):
            for k in ([q] if q and isinstance(q[0], str) else q):
                if isinstance(k, tuple) and k and isinstance(k[0], str):
                    yield from shallow(k)


def same(x, a, b):
    """Did the comparison of the two values find them equal (None: not compared)?"""
    out = None
    for at, p, _ in x.facts:
        if at[1] in ("truth", "truthv", "==", "is"):
            ts = {t for q in at[2:] if isinstance(q, tuple) for t in shallow(q)}
            if a in ts and b in ts:
                out = p
    return out


def st(v):
    return ("call", ext("stored"), (v,), (), 0)


def tup(*v):
    return ("tuple", tuple(v))


def ret(paths, *vals):
    for x in paths:
        if x.kind == "ret" and not infeasible(x, *vals) and not any(
                a[1] == "isinstance" and p and a[2][0] == "param" and "EventedModel" in show(a[3])
                for a, p, _ in x.facts):
            yield x


@prop("C23", 8)
def c23(r):
    r.rule("C23.assign", "assigning a field stores the value given")
    r.rule("C23.event", "its signal emits the stored value once exactly when the comparison finds a change")
    r.rule("C23.operator", "the comparison registered for the field decides")
    r.rule("C23.dependents", "a dependent emits its new value once exactly when the field changed and the "
                             "comparison of its own values finds a change")
    r.rule("C23.atomic", "a property setter assigning several fields emits after all are assigned, once each")
    r.rule("C23.reentry", "a field assigned by a callback emits too")
    r.rule("C23.after", "an assignment after a failing setter or callback emits as usual")
    r.rule("C23.other", "a name without a signal is assigned and emits nothing")
    r.rule("C23.update", "update assigns every value given, nested models in place, with the group relay "
                         "paused around")
    r.rule("C23.reset", "reset assigns the default of every mutable field and resets nested models")
    r.rule("C23.equal", "models compare equal exactly when all their fields do")
    r.rule("C23.signals", "every field that is not frozen and every property setter allowed has a signal; "
                          "a frozen field has none")
    r.rule("C23.declared", "a declared dependency makes the property a dependent of the field")
    w = World(r)
    f = r.p.method(w.cls, "__setattr__")
    old, b, val = P_("old"), P_("b"), P_("val")
    n = 0
    # one field
    for key, deps in (("alone", "{}"), ("dependents", "{'a': {'c', 'd'}, 'b': {'c'}}")):
        for ask in (False, True):
            for x in ret(w.run((key, ask), "old, b, val, op",
                               ["m.a = val", "return m.a, m.b, s.log, t.log, u.log, w.log"],
                               deps=deps, ops="{'a': op}" if ask else "{}",
                               opaque=() if ask and deps == "{}" else (EQ,)), old, st(val), b,
                         tup(old, b), tup(st(val), b)):
                n += 1
                a_, b_, *logs = x.val[1]
                s, t, u, d = (elts(x, v) for v in logs)
                if None in (s, t, u, d):
                    r.note(f"events of {key} not decided")
                    continue
                r.ob("C23.assign", key, a_ == st(val) and b_ == b, f"assigning a field leaves it "
                     f"{show(a_)} and another {show(b_)}", f.node, f)
                eq = same(x, old, st(val))
                want = [tup(st(val))]
                if ask and deps == "{}" and eq is not None and any(P_("op") in walk(a) for a, _, _ in x.facts):
                    r.p._c23_op = True
                if eq is None:
                    r.ob("C23.event", key + ":compare", False, "a field is assigned without comparing its "
                         f"values; emitted: {[show(e) for e in s]}", f.node, f)
                    continue
                r.ob("C23.event", key, s == ([] if eq else want), "the field "
                     f"{'is unchanged' if eq else 'changed'}; its signal emits {[show(e) for e in s]}", f.node, f)
                r.ob("C23.event", key + ":other", not t, "the signal of another field emits", f.node, f)
                if deps == "{}" or eq:
                    r.ob("C23.dependents", key + ":unchanged", not u and not d, "a dependent emits though its "
                         "field did not change" if eq else "a property that is no dependent emits", f.node, f)
                    continue
                for log, o, v in ((u, tup(old, b), tup(st(val), b)), (d, tup(b, old), tup(b, st(val)))):
                    dep = same(x, o, v)
                    r.ob("C23.dependents", key, dep is not None and log == ([] if dep else [tup(v)]),
                         "the field changed; the dependent, found "
                         f"{'unchanged' if dep else 'changed' if dep is False else 'uncompared'}, emits "
                         f"{[show(e) for e in log]}", f.node, f)
    r.need(n, "assigning a field of an EventedModel could not be followed")
    r.ob("C23.operator", "consulted", getattr(r.p, "_c23_op", False), "the comparison registered for the "
         "field is never used", f.node, f)
    listeners(r, w, f)
    setter(r, w, f)
    twice(r, w, f)
    reentry(r, w, f)
    other(r, w, f)
    update(r, w)
    reset(r, w)
    equal(r, w)
    signals(r, w)
    declared(r, w)


def listeners(r, w, f):
    """Only the dependent, or only the group, is listened to."""
    old, b, val = P_("old"), P_("b"), P_("val")
    for key, body in (("dependent", ["s.n = 0", "rel.n = 0"]), ("group", ["s.n = 0", "u.n = 0"])):
        for x in ret(w.run(("heard", key), "old, b, val", [*body, "m.a = val", "return m.a, s.log, u.log"],
                           deps="{'a': {'c'}, 'b': {'c'}}"), old, st(val), b):
            s, u = (elts(x, v) for v in x.val[1][1:])
            r.ob("C23.assign", "heard:" + key, x.val[1][0] == st(val), "a field is not assigned when only "
                 f"the {key} is listened to", f.node, f)
            eq = same(x, old, st(val))
            if key == "group" or s is None or u is None:
                continue
            dep = same(x, tup(old, b), tup(st(val), b))
            want = [tup(tup(st(val), b))] if eq is False and dep is False else []
            r.ob("C23.dependents", "heard:dependent", u == want and (eq is True or dep is not None),
                 f"only the dependent is listened to and it emits {[show(e) for e in u]}", f.node, f)


def setter(r, w, f):
    old, b = P_("old"), P_("b")
    p, q = P_("p"), P_("q")
    new = tup(st(p), st(q))
    for x in [x for deps in ("{'a': {'c'}, 'b': {'c'}}", "{}") for x in ret(
            w.run("setter" + deps, "old, b, p, q", ["s.m = t.m = u.m = m", "m.c = (p, q)",
                                                    "return m.a, m.b, s.log, t.log, u.log"],
                  setters="{'c': Setter()}", deps=deps), old, b, st(p), st(q), new, tup(old, b))]:
        a_, b_, *logs = x.val[1]
        r.ob("C23.assign", "setter", a_ == st(p) and b_ == st(q), "assigning a property does not run its "
             "setter", f.node, f)
        logs = [elts(x, v) for v in logs]
        if None in logs:
            r.note("events of a property setter not decided")
            continue
        for name, log, o, v in (("a", logs[0], old, st(p)), ("b", logs[1], b, st(q)), ("c", logs[2], tup(old, b), new)):
            r.ob("C23.atomic", "once", len(log) <= 1, f"one assignment makes {name} emit {len(log)} times",
                 f.node, f)
            r.ob("C23.atomic", "after", all(e[0] == "tuple" and e[1][1:] == (st(p), st(q)) for e in log),
                 f"{name} emits before every field is assigned", f.node, f)
            r.ob("C23.atomic", "value", all(e[1][0] == tup(v) for e in log), f"{name} emits "
                 f"{[show(e) for e in log]}", f.node, f)
            eq = same(x, o, v)
            changed = any(same(x, k, j) is False for k, j in ((old, st(p)), (b, st(q))))
            if name != "c":
                r.ob("C23.atomic", "event", eq is not None and len(log) == (not eq), f"{name} "
                     f"{'is unchanged' if eq else 'changed' if eq is False else 'is not compared'} and emits "
                     f"{len(log)} times", f.node, f)
            elif eq is not None:
                r.ob("C23.atomic", "property", len(log) == (not eq), "the property assigned "
                     f"{'is unchanged' if eq else 'changed'} and emits {len(log)} times", f.node, f)
            elif changed:
                r.ob("C23.atomic", "property", False, "the property assigned is not compared though a field "
                     "changed", f.node, f)


def twice(r, w, f):
    old, b, p, q = P_("old"), P_("b"), P_("p"), P_("q")
    for x in ret(w.run("twice", "old, b, p, q", ["m.c = (p, q)", "return m.a, s.log"], setters="{'c': Twice()}",
                       deps="{'a': {'c'}}"), old, b, st(p), st(q), tup(st(q), b), tup(old, b)):
        s = elts(x, x.val[1][1])
        if s is None:
            continue
        eq = same(x, old, st(q))
        r.ob("C23.atomic", "twice", eq is not None and s == ([] if eq else [tup(st(q))]), "a property setter "
             f"assigns a field twice; in all it {'is unchanged' if eq else 'changed' if eq is False else 'is not compared'}"
             f" and emits {[show(e) for e in s]}", f.node, f)


def reentry(r, w, f):
    old, b, val, v2 = P_("old"), P_("b"), P_("val"), P_("v2")
    deps = "{'a': {'c'}, 'b': {'c'}}"
    for key, dd in (("dependents", deps), ("alone", "{}")):
        for x in ret(w.run(("callback", key), "old, b, val, v2",
                           ["s.then = Assign(m, v2)", "m.a = val", "return m.a, m.b, s.log, t.log"], deps=dd),
                     old, b, st(val), st(v2)):
            a_, b_, s, t = x.val[1]
            s, t = elts(x, s), elts(x, t)
            if s is None or t is None:
                r.note("events of a field assigned by a callback not decided")
                continue
            eq, eb = same(x, old, st(val)), same(x, b, st(v2))
            r.ob("C23.reentry", "assign", b_ == (st(v2) if s else b) and a_ == st(val), "a field assigned by "
                 "a callback is not stored", f.node, f)
            if eq is False:
                r.ob("C23.reentry", key, eb is not None and len(t) == (not eb) and
                     all(e == tup(st(v2)) for e in t), "a field assigned by a callback "
                     f"{'is unchanged' if eb else 'changed' if eb is False else 'is not compared'} and emits "
                     f"{[show(e) for e in t]}", f.node, f)
                r.ob("C23.reentry", key + ":first", len(s) == 1, "a field emits "
                     f"{len(s)} times when its callback assigns another", f.node, f)
        # one assignment after the other
        ps = w.run(("again", key), "old, b, val, v2", ["m.a = val", "m.b = v2", "return s.log, t.log"], deps=dd)
        for x in ps:
            if x.kind == "raise" and x.val and x.val[0] == "exc":
                r.ob("C23.event", "again:raises", x.val[1] is None, "of two assignments in a row, one raises "
                     f"{show(x.val)}", f.node, f)
        for x in ret(ps, old, b, st(val), st(v2)):
            s, t = (elts(x, v) for v in x.val[1])
            if s is None or t is None:
                r.note("events of two assignments not decided")
                continue
            for log, o, v in ((s, old, st(val)), (t, b, st(v2))):
                eq = same(x, o, v)
                r.ob("C23.event", "again:" + key, eq is not None and log == ([] if eq else [tup(v)]),
                     "of two assignments in a row, one to a field found "
                     f"{'unchanged' if eq else 'changed' if eq is False else 'uncompared'} emits "
                     f"{[show(e) for e in log]}", f.node, f)
        # the same field twice, something a dependent uses changed in between
        if dd == deps:
            b2 = P_("b2")
            for x in ret(w.run(("stale", key), "old, b, b2, val, v2",
                               ["s.n = 0", "m.a = val", "object.__setattr__(m, 'b', b2)", "u.log.clear()",
                                "m.a = v2", "return u.log"], deps=dd),
                         old, b, st(val), st(v2), b2):
                u = elts(x, x.val)
                if u is None:
                    r.note("events of a dependent after two assignments not decided")
                    continue
                if same(x, st(val), st(v2)) is not False:
                    continue
                o, v = tup(st(val), b2), tup(st(v2), b2)
                eq = same(x, o, v)
                r.ob("C23.dependents", "stale", eq is not None and u == ([] if eq else [tup(v)]),
                     "a dependent is compared with its value before an earlier assignment" if eq is None else
                     f"a dependent found {'unchanged' if eq else 'changed'} emits {[show(e) for e in u]}", f.node, f)
        # a setter or a callback that fails
        for how, pre, kw in (("callback", ["s.then = Fault()", "try:", "    m.a = val", "except Exception:",
                                           "    pass"], {}),
                             ("setter", ["try:", "    m.c = (val, 0)", "except Exception:", "    pass"],
                              {"setters": "{'c': BadSetter()}"})):
            for x in ret(w.run((how, key, "fails"), "old, b, val, v2",
                               [*pre, "t.log.clear()", "m.b = v2", "return m.a, m.b, s.log, t.log"], deps=dd, **kw),
                         old, b, st(val), st(v2)):
                if any("exception from user code" in show(a[2]) for a, _, _ in x.facts if a[1] == "isinstance"):
                    continue  # (another failure than the one meant)
                a_, b_, s, t = x.val[1]
                t = elts(x, t)
                if t is None:
                    r.note("events after a failure not decided")
                    continue
                eb = same(x, b, st(v2))
                r.ob("C23.after", how, b_ == st(v2) and eb is not None and len(t) == (not eb)
                     and all(e == tup(st(v2)) for e in t), f"after a {how} that fails, a field assigned "
                     f"{'is unchanged' if eb else 'changed' if eb is False else 'is not compared'} and emits "
                     f"{[show(e) for e in t]}", f.node, f)


def other(r, w, f):
    old, b, val = P_("old"), P_("b"), P_("val")
    for x in ret(w.run("other", "old, b, val", ["m.d = val", "return m.a, m.b, m.d, s.log, t.log, u.log"]),
                 old, b, val):
        a_, b_, d, *logs = x.val[1]
        r.ob("C23.other", "assign", d == st(val) and (a_, b_) == (old, b), "a name without signal is not "
             "assigned as given", f.node, f)
        r.ob("C23.other", "event", not any(elts(x, v) for v in logs), "assigning a name without signal emits",
             f.node, f)


def update(r, w):
    f = r.p.method(w.cls, "update")
    r.need(f, "EventedModel.update is gone")
    old, b, p, q = P_("old"), P_("b"), P_("p"), P_("q")
    sub = ["k = Sub.__new__(Sub)", "got = []", "object.__setattr__(k, 'got', got)",
           "object.__setattr__(m, 'b', k)"]
    for key, pre, call in (("fields", [], "m.update({'a': p, 'b': q})"),
                           ("nested", sub, "m.update({'a': p, 'b': q})"),
                           ("flat", sub, "m.update({'a': p, 'b': q}, recurse=False)")):
        body = pre + ([] if pre else ["got = []"]) + ["s.then = Mark(rel, 'a')", "t.then = Mark(rel, 'b')",
                                                      call, "return m.a, m.b, rel.log, got"]
        text = w.text("old, b, p, q", body).replace("def client(", MARK + "def client(")
        for x in ret(r.client(("C23", "update", key), text, opaque_classes=(), opaque=(EQ,), noise=False, recurse=8), old, b):
            a_, b_, log, got = x.val[1]
            log, got = elts(x, log), elts(x, got)
            nested = key == "nested"
            r.ob("C23.update", key, a_ == st(p) and (nested or b_ == st(q)), "update does not assign every "
                 f"value given: {show(a_)}, {show(b_)}", f.node, f)
            if got is not None:
                r.ob("C23.update", key + ":nested", got == ([tup(C("update"), q, C(True))] if nested else []),
                     "a nested model is not updated in place" if nested else
                     "a nested model is updated in place though recurse is off", f.node, f)
            if log is None:
                r.note("pausing of the relay by update not decided")
                continue
            for c_, (o_, v_) in (("a", (old, st(p))), ("b", (b, st(q)))):
                if c_ == "b" and key != "fields":
                    continue
                eq = same(x, o_, v_)
                r.ob("C23.update", "event", eq is not None and log.count(C(c_)) == (not eq), "update assigns a "
                     f"field, found {'unchanged' if eq else 'changed' if eq is False else 'uncompared'}, and it emits "
                     f"{log.count(C(c_))} times", f.node, f)
            r.ob("C23.update", "paused", log and log[0] == C("paused") and log[-1] == C("resumed")
                 and log.count(C("paused")) == 1, "update emits outside of its pause of the group relay: "
                 f"{[show(e) for e in log]}", f.node, f)


MARK = '''class Mark:
    def __init__(self, rel, name):
        self.rel, self.name = rel, name
    def __call__(self, *a):
        self.rel.log.append(self.name)
'''


def reset(r, w):
    f = r.p.method(w.cls, "reset")
    r.need(f, "EventedModel.reset is gone")
    d = [m for m in r.p.funcs.values() if m.name == "_defaults" and getattr(m.cls, "qual", "") == w.cls.qual]
    if not d:
        r.note("reset not decided: no _defaults")
        return
    old, b, p = P_("old"), P_("b"), P_("p")
    over = "    @property\n    def _defaults(self):\n        return self.dflt\n"
    pre = ["k, j = Sub.__new__(Sub), Sub.__new__(Sub)", "got, none = [], []",
           "object.__setattr__(k, 'got', got)", "object.__setattr__(j, 'got', none)",
           "object.__setattr__(m, 'b', k)", "object.__setattr__(m, 'z', old)",
           "object.__setattr__(m, 'dflt', {'a': p, 'b': j, 'z': p})", "Model.model_config = {}",
           "Model.model_fields = {'a': Field(False), 'b': Field(False), 'z': Field(True)}",
           "m.reset()", "return m.a, m.b, m.z, got, none, s.log"]
    text = w.text("old, b, p", pre).replace("class Setter", over + "class Setter", 1)
    for x in ret(r.client(("C23", "reset"), text, opaque_classes=(), opaque=(EQ,), noise=False, recurse=8), old, b):
        a_, b_, z, got, none, log = x.val[1]
        eq, log = same(x, old, st(p)), elts(x, log)
        r.ob("C23.reset", "event", eq is not None and log in (None, [] if eq else [tup(st(p))]), "reset assigns a "
             f"field, found {'unchanged' if eq else 'changed' if eq is False else 'uncompared'}, and it emits "
             f"{[show(e) for e in log or ()]}", f.node, f)
        r.ob("C23.reset", "field", a_ == st(p), f"reset leaves a field {show(a_)}", f.node, f)
        r.ob("C23.reset", "frozen", z == old, "reset assigns a frozen field", f.node, f)
        r.ob("C23.reset", "nested", elts(x, got) == [tup(C("reset"))] and not elts(x, none),
             "reset does not reset the nested model in place", f.node, f)


def equal(r, w):
    f = r.p.method(w.cls, "__eq__")
    r.need(f, "EventedModel.__eq__ is gone")
    old, b, p, q = P_("old"), P_("b"), P_("p"), P_("q")
    n = 0
    for x in w.run("equal", "old, b, p, q", ["o = Model.__new__(Model)", "object.__setattr__(o, 'a', p)",
                                             "object.__setattr__(o, 'b', q)", "return m.__eq__(o)"],
                   ops="{'a': None, 'b': None}"):
        if x.kind != "ret" or infeasible(x, old, b, p, q):
            continue
        n += 1
        ea, eb = same(x, old, p), same(x, b, q)
        got = x.val
        if got[0] == "const":
            r.ob("C23.equal", "equal" if got == C(True) else "differ",
                 (ea is True and eb is True) if got == C(True) else (ea is False or eb is False),
                 f"models whose fields compare {ea} and {eb} compare {show(got)}", f.node, f)
        else:
            r.note("equality of models not decided")
    if not n:
        r.note("equality of models not followed")


def signals(r, w):
    """The group class of the model has a signal for each mutable field and setter."""
    f = w.new
    n = 0
    for x in w.paths:
        if x.kind != "ret":
            continue
        made = [e.args[0] for e in x.events if e.kind == "store" and e.name == "__signal_group__"]
        if not made:
            r.ob("C23.signals", "group", False, "a model class is created without its signal group", f.node, f)
            continue
        src = [a for t in walk(made[-1]) if t[0] == "call" and len(t[2]) == 3 for a in t[2][2:]]
        if len(src) != 1:
            r.note("the signals of a model class are not followed")
            continue
        el = x.st.heap.get((src[0], "$elts"))
        if el is None:
            r.note("the signals of a model class are not followed")
            continue
        rest = []
        for i in el:
            if i[0] == "each" and "model_fields" in show(strip_ver(i[2])):
                n += 1
                cases = [cs for cs, tail in i[3] if tail]
                froz = [[f_ for f_ in cs if f_[0][1] in ("truth", "truthv") and f_[0][2][0] == "attr"
                         and f_[0][2][2] == "frozen"] for cs in cases]
                r.ob("C23.signals", "frozen", all(k and not k[-1][1] for k in froz), "a frozen field has a "
                     "signal", f.node, f)
                atom = next((k[-1][0] for k in froz if k), None)
                r.ob("C23.signals", "field", atom is not None and covers([*cases, [(atom, True, None)]]),
                     "a mutable field may have no signal", f.node, f)
            else:
                rest.append(i)
        allowed = [p for a, p, _ in x.facts if a[1] in ("truth", "truthv")
                   and show(a[2]).endswith("['allow_property_setters'])"[:-1])]
        if allowed and allowed[-1]:
            n += 1
            r.ob("C23.signals", "setter", bool(rest), "property setters have no signal", f.node, f)
            for e in x.events:
                if e.kind == "loop" and e.recv in setters(x):
                    made_ = [any(v.kind == "setitem" and v.recv == src[0] for v in bd.events)
                             for bd in e.extra["bodies"]]
                    r.ob("C23.signals", "setter:each", all(made_) or not any(made_), "a property setter may "
                         "have no signal", e.node, f)
        has = depend(x)
        inst = [e for e in x.events if e.kind == "store" and e.name in {a for v in w.variants.values()
                for st_ in v for a, _ in st_}]
        if not lacking(x, w.names) and w.variants[True, True] and w.variants[False, False] and has is True:
            r.ob("C23.dependents", "installed", all((e.name, e.args[0][2]) in w.variants[True, True][0] for e in inst
                 if e.args[0][0] == "attr"), "a class with dependents gets the setter without", f.node, f)
    if not n:
        r.note("creation of a model class not followed")


def setters(x):
    return {e.args[0] for e in x.events if e.kind == "store" and e.name == "__property_setters__"}


def declared(r, w):
    f = r.p.find_func("_get_field_dependents")
    if not f:
        r.note("declared dependencies not decided")
        return
    for key, cfg, want in (
            ("declared", "{'field_dependencies': {'c': ['a', 'b']}}", {"a": {"c"}, "b": {"c"}}),
            ("two", "{'field_dependencies': {'c': ['a'], 'd': ['a']}}", {"a": {"c", "d"}}),
            ("guessed", "{'guess_property_dependencies': True}", {"a": {"c"}}),
            ("guessed two", "{'guess_property_dependencies': True}", {"a": {"c", "d"}, "b": {"d"}}),
            ("none", "{}", {})):
        text = IMP + ("def client():\n    Model.__property_setters__ = {'c': Getter(('a', 'z'), 1), "
                      f"'d': Getter({('b', 'y', 'a') if key == 'guessed two' else ('y',)}, 1)}}\n"
                      f"    return _get_field_dependents(Model, {cfg}, {{'a': 1, 'b': 1}})\n")
        for x in r.client(("C23", "declared", key), text, opaque_classes=(), noise=False):
            if x.kind != "ret":
                r.ob("C23.declared", key, x.kind != "raise", "declaring a dependency raises", f.node, f)
                continue
            got = as_dict(x, x.val)
            if got is None:
                r.note(f"dependencies ({key}) not decided")
                continue
            r.ob("C23.declared", key, got == want, f"the dependents are {got}, not {want}", f.node, f)


def as_dict(x, t):
    out = {}
    for i in x.st.heap.get((t, "$elts"), ()):
        if i[0] != "item" or i[1][0] != "tuple" or i[1][1][0][0] != "const":
            return None
        k, v = i[1][1]
        els = x.st.heap.get((v, "$elts"))
        if els is None or any(j[0] != "item" or j[1][0] != "const" for j in els):
            return None
        out[k[2]] = {j[1][2] for j in els}
    return out if (t, "$elts") in x.st.heap else None
