"""C17, C18: groups of signals and their relay."""

from __future__ import annotations

import ast

from ..q import SELF, calls, covers, deep, loops, place, truth_of
from ..slots import ADD
from ..terms import C, NONE, is_const, show, walk
from . import prop
from .state import P_, Roles, delivered, elts, relay_handlers

IMP = ("from psygnal import SignalInstance\nfrom psygnal._group import SignalRelay\n"
       "class Slot:\n    def __init__(self, p):\n        self.priority = p\n")
TWO = ("    a = SignalInstance((int,), name='a')\n    b = SignalInstance((int,), name='b')\n"
       "    rel = SignalRelay({'a': a, 'b': b})\n")


def emitter_now(t):
    """Is t the signal being emitted on this thread?"""
    t = place(t)
    if t[0] == "attr":
        return t[2] == "emitter"
    if t[0] == "op" and t[1] == "getattr":
        return len(t) > 3 and t[3] == C("emitter")
    return t[0] == "call" and "current_emitter" in show(t[1])


def no_emitter(x):
    for a, p, _ in x.facts:
        if a[1] in ("truth", "truthv") and emitter_now(a[2]) and not p:
            return True
        if a[1] == "is" and emitter_now(a[2]) and a[3] == NONE and p:
            return True
        if a[1] == "hasattr" and a[3] == C("emitter") and not p:
            return True
    return False


def info_ok(v, args):
    """((EmissionInfo(emitter, args),), or None when not recognised)"""
    v = place(v)
    if v[0] != "tuple" or len(v[1]) != 1:
        return False
    v = v[1][0]
    if v[0] == "nt":
        fs = list(v[2])
        if len(fs) < 2:
            return False
        return emitter_now(fs[0]) and place(fs[1]) == args
    return None


@prop("C17", 6)
def c17(r):
    r.rule("C17.info", "each emission of a member reaches the group's callbacks exactly once, as one "
                       "EmissionInfo of the emitting signal and its arguments")
    r.rule("C17.attach", "the relay listens to every member from its first callback on, once")
    r.rule("C17.detach", "it stops listening to every member when its last callback goes")
    K = Roles(r)
    c = r.p.find_class("SignalRelay")
    r.need(c, "SignalRelay is gone")
    hs = [h for h in relay_handlers(c) if r.p.method(c, h)]
    r.need(hs, "the relay connects none of its methods to its members")
    for h in hs:
        f = r.p.method(c, h)
        va = f.node.args.vararg
        n = 0
        for x in r.run(f, c, opaque=K.op):
            d = delivered(x, K.dn)
            q = [e for e in calls(x.events, "append") if place(e.recv) == K.R.argsq_t]
            if x.kind != "ret" or no_emitter(x):
                continue
            n += 1
            r.ob("C17.info", "once", len(d) + len(q) == 1, f"an emission of a member reaches the "
                 f"callbacks of the group {len(d) + len(q)} times", f.node, f)
            for e in d + q:
                if va is None or not e.args:
                    r.note("relayed arguments not decided")
                    continue
                ok = info_ok(e.args[0], P_("*" + va.arg))
                if ok is None:
                    r.note(f"relayed {show(e.args[0])} not decided")
                    continue
                r.ob("C17.info", "what", ok, f"the group's callbacks get {show(e.args[0])}",
                     e.node, e.func)
        r.need(n, "no path of the relay's handler could be followed")
    attach(r, K, c, hs)


def is_handler(t, hs):
    t = place(t)
    return t[0] == "bound" and t[2].split(".")[-1] in hs or t[0] == "attr" and t[2] in hs


def adder(r, K):
    c = r.p.find_class("SignalInstance")
    for n, g in c.methods.items():
        if len(g.node.args.args) == 2 and not g.node.args.kwonlyargs and any(
                isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute)
                and y.func.attr in ADD and isinstance(y.func.value, ast.Attribute)
                and y.func.value.attr == K.S for y in ast.walk(g.node)):
            return n
    return None


def attach(r, K, c, hs):
    add = adder(r, K)
    rem = r.p.method(c, "_remove_slot")
    if add is None or rem is None:
        r.note("attaching the relay not followed")
        return
    f = r.p.method(c, add)
    mem = ("class Member:\n    def __init__(self):\n        self.log = []\n"
           "    def connect(self, slot=None, *, thread=None, check_nargs=None, check_types=None, "
           "unique=False, max_args=None, on_ref_error='warn', priority=0):\n"
           "        self.log.append(('connect', slot, thread, max_args, unique))\n        return slot\n"
           "    def disconnect(self, slot=None, missing_ok=True):\n"
           "        self.log.append(('disconnect', slot, None, None, False))\n")
    steps = [("first", f"    rel.{add}(s1)\n", 1, 0), ("second", f"    rel.{add}(s2)\n", None, 0),
             ("one-left", "    rel._remove_slot(0)\n", 0, 0),
             ("none-left", "    rel._remove_slot(0)\n", 0, 1),
             ("again", f"    rel.{add}(s3)\n", 1, 0),
             ("all", "    rel._remove_slot('all')\n", 0, 1),
             ("byvalue", f"    rel.{add}(s1)\n", 1, 0),
             ("byvalue-left", "    rel._remove_slot(s1)\n", 0, 1)]
    done = ""
    for key, code, con, dis in steps:
        text = (IMP + mem + "def client():\n    a = Member()\n    b = Member()\n"
                "    rel = SignalRelay({'a': a, 'b': b})\n    s1 = Slot(0)\n    s2 = Slot(0)\n"
                "    s3 = Slot(5)\n" + done + "    a.log.clear()\n    b.log.clear()\n" + code
                + "    return a.log, b.log\n")
        done += code
        n = 0
        for x in r.client(("C17", key), text):
            if x.kind != "ret":
                continue
            logs = [x.st.heap.get((m, "$elts")) for m in x.val[1]]
            if not all(lg is not None and all(i[0] == "item" for i in lg) for lg in logs):
                continue
            n += 1
            for lg in logs:
                ev = [i[1][1] for i in lg]
                for rule, name, want in (("C17.attach", "connect", con), ("C17.detach", "disconnect", dis)):
                    mine = [e for e in ev if e[0] == C(name)]
                    k = len(mine)
                    uniq = all(e[4] == C(True) for e in mine)
                    ok = k == want or name == "connect" and uniq and (k > 0) == (want == 1) or (
                        want is None and (k == 0 or uniq)) or name == "disconnect" and want and k > want
                    verb = "connects to" if name == "connect" else "disconnects from"
                    r.ob(rule, key, ok, f"the relay {verb} a member {k} times when its "
                         + {"first": "first callback is added", "second": "second callback is added",
                            "one-left": "last but one callback is removed",
                            "none-left": "last callback is removed",
                            "again": "first callback is added again",
                            "all": "callbacks are all removed"}.get(
                                key, "only callback is added or removed"), f.node, f)
                    for e in mine:
                        bad = [w for w, v in (("thread", e[2]), ("max_args", e[3])) if v != NONE]
                        r.ob(rule, "options", not bad, f"the relay connects to its members with {bad}",
                             f.node, f)
                        r.ob(rule, "handler", is_handler(e[1], hs), f"the relay {verb} its members "
                             f"{show(e[1])} instead of its own handler", f.node, f)
        if not n:
            r.note(f"attaching the relay ({key}) not decided")


PASS = ("connect", "connect_direct", "disconnect", "block", "unblock", "blocked", "pause", "resume",
        "paused")


@prop("C18", 10)
def c18(r):
    r.rule("C18.pass", "a group's own connect, disconnect, block, pause ... do what its relay does, with "
                       "every option given, and return what it returns")
    r.rule("C18.members", "connect_direct and disconnect act on every member of the group")
    r.rule("C18.missing", "disconnecting from a group a slot connected nowhere raises only when "
                          "missing_ok is False")
    r.rule("C18.names", "len, iteration, membership and item access of a group all speak of the same "
                        "member signals")
    r.rule("C18.relay", "a group's relay is made from those same signals and its owner")
    r.rule("C18.inherit", "a subclass of a group has the signals and aliases of its base and its own")
    g, rel = r.p.find_class("SignalGroup"), r.p.find_class("SignalRelay")
    r.need(g and rel, "SignalGroup or SignalRelay is gone")
    passthrough(r, g, rel)
    direct(r, rel)
    disconnecting(r, rel)
    container(r, g)
    r.rule("C18.strict", "a strict group whose signals take different types is refused, and only that")
    subclass(r, g)
    uniform(r, g)


def relay_name(r, g):
    """The group attribute holding the relay: what the `all` property returns."""
    f = r.p.method(g, "all")
    if f is None:
        return None
    for x in r.run(f, g, noise=True):
        if x.kind == "ret" and place(x.val)[0] == "attr" and place(x.val)[1] == SELF:
            return place(x.val)[2]
    return None


def passthrough(r, g, rel):
    rn = relay_name(r, g)
    if rn is None:
        r.note("the relay of a group was not recognised")
        return
    R = ("attr", SELF, rn)
    for m in PASS:
        f = r.p.method(g, m)
        t = r.p.method(rel, m)
        if f is None or t is None:
            r.note(f"no {m}")
            continue
        a = t.node.args
        pos = [p.arg for p in a.posonlyargs + a.args][1:]
        names = [p.arg for p in f.node.args.args[1:] + f.node.args.kwonlyargs]
        for x in r.run(f, g):
            if x.kind != "ret":
                continue
            cs = [e for e in calls(x.events) if e.name == m and e.recv is not None
                  and (place(e.recv) == R or any(u[0] == "attr" and u[2] == rn for u in walk(e.recv)))]
            cs = [e for e in cs if not (e.extra or {}).get("raised")]
            r.ob("C18.pass", m, len(cs) == 1, f"{m} of a group calls {m} of its relay {len(cs)} times",
                 f.node, f)
            if len(cs) != 1:
                continue
            e = cs[0]
            got = dict(zip(pos, e.args))
            got.update(dict(e.kw))
            if any(v[0] in ("star",) for v in e.args) or any(k == "**" for k, _ in e.kw):
                r.note(f"{m}: packed arguments not decided")
                continue
            for n in names:
                v = got.get(n)
                ok = v is not None and place(v) == P_(n)
                if not ok:
                    d = default_of(t, n)
                    vv = C(None) if v is None and d is None else (v if v is not None else d)
                    ok = vv is not None and (is_const(vv) and known_eq(x, P_(n), vv))
                r.ob("C18.pass", f"{m}:{n}", ok, f"{m} of a group passes {n}="
                     f"{show(v) if v is not None else '(nothing)'} to its relay", e.node, e.func)
            r.ob("C18.pass", m + ":result", x.val == e.res or x.val == NONE and m in (
                "disconnect", "block", "unblock", "pause", "resume"),
                f"{m} of a group returns {show(x.val)}", e.node, e.func)


def default_of(f, n):
    a = f.node.args
    ps = a.posonlyargs + a.args
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        if p.arg == n and isinstance(d, ast.Constant):
            return C(d.value)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == n and isinstance(d, ast.Constant):
            return C(d.value)
    return None


def known_eq(x, t, v):
    for a, p, _ in x.facts:
        if a[1] in ("is", "==") and p and {place(a[2]), place(a[3])} == {t, v}:
            return True
    return False


def members_loop(x, pred):
    """Loops over the members whose every iteration satisfies pred exactly once."""
    for lp, st in loops(x.events):
        if st or lp.recv is None or "_signals" not in show(lp.recv):
            continue
        yield lp


def direct(r, rel):
    f = r.p.method(rel, "connect_direct")
    if f is None:
        r.note("no connect_direct")
        return
    opts = [p.arg for p in f.node.args.kwonlyargs]
    for how, use in (("slot", "    return rel.connect_direct(slot%s), a, b\n"),
                     ("decorator", "    return rel.connect_direct(%s)(slot), a, b\n")):
        kw = ", ".join(f"{o}={o}" for o in opts)
        text = (IMP + f"def client(slot, {', '.join(opts)}):\n" + TWO + use % (
            (", " if how == "slot" else "") + kw))
        n = 0
        for x in r.client(("C18", "direct", how), text, opaque={"connect"}):
            if x.kind != "ret":
                continue
            from ..q import fact
            if fact(x, lambda a: a[1] == "is" and place(a[2]) == P_("slot") and a[3] == NONE):
                continue
            n += 1
            val, *ms = x.val[1]
            cs = [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "connect"
                  and not (e.extra or {}).get("raised")]
            for m in ms:
                mine = [e for e in cs if e.recv == m]
                r.ob("C18.members", f"connect_direct:{how}", len(mine) == 1, "connect_direct connects "
                     f"the slot to a member {len(mine)} times", f.node, f)
                for e in mine:
                    kws = dict(e.kw)
                    ok = [o for o in opts if place(kws.get(o, NONE)) != P_(o)]
                    r.ob("C18.members", "connect_direct:options", e.args[:1] == (P_("slot"),) or list(
                        e.args[:1]) == [P_("slot")], "connect_direct connects something else than the "
                         "slot", e.node, e.func)
                    r.ob("C18.members", "connect_direct:options", not ok,
                         f"connect_direct does not pass {', '.join(ok)} on", e.node, e.func)
            r.ob("C18.members", "connect_direct:returns", val == P_("slot"),
                 f"connect_direct returns {show(val)}", f.node, f)
        if not n:
            r.note(f"connect_direct as {how} not decided")


def disconnecting(r, rel):
    f = r.p.method(rel, "disconnect")
    r.need(f, "SignalRelay.disconnect is gone")
    # every member is asked, whatever the slot
    n = 0
    for x in r.client(("C18", "disc"), IMP + "def client(slot, missing_ok):\n" + TWO +
                      "    rel.disconnect(slot, missing_ok)\n    return a, b, rel\n",
                      opaque={"_slot_index", "_disconnect_relay", "_connect_relay"}):
        if x.kind not in ("ret", "raise"):
            continue
        members = [e.res if e.res else e.recv for e in x.events if e.kind == "alloc"
                   and e.name == "SignalInstance"]
        rl = [e.res if e.res else e.recv for e in x.events if e.kind == "alloc"
              and e.name == "SignalRelay"]
        if len(members) != 2 or len(rl) != 1:
            continue
        from ..q import fact
        none = fact(x, lambda a: a[1] == "is" and place(a[2]) == P_("slot") and a[3] == NONE)
        idx = {m: [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "_slot_index"
                   and e.recv == m] for m in members + rl}
        n += 1
        if none:
            for m in members + rl:
                cl = [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "clear"]
                r.ob("C18.members", "disconnect:all", x.kind == "ret" and len(cl) >= 3,
                     "disconnect() of a group leaves some callbacks connected", f.node, f)
            continue
        if x.kind == "ret":
            for m in members + rl:
                r.ob("C18.members", "disconnect", idx[m], "disconnecting a slot from a group leaves it "
                     "connected to a member or to the relay", f.node, f)
        found, agree = found_anywhere(x, members + rl)
        if not agree:
            continue
        mo = truth_of(x, P_("missing_ok"))
        if x.kind == "raise":
            if x.val[0] == "exc" and x.val[1] and x.val[1][1].endswith("ValueError") and raised_missing(x):
                r.ob("C18.missing", "raise", mo is False and found is not True,
                     "disconnecting raises although " + ("missing_ok is set" if mo is not False else
                                                         "the slot was connected to a member"),
                     f.node, f)
        else:
            r.ob("C18.missing", "silent", mo is True or found is not False,
                 "disconnecting a slot that is connected nowhere is silent although missing_ok is False",
                 f.node, f)
    if not n:
        r.note("disconnect of a group not decided")


def raised_missing(x):
    """The exception is that of an unknown slot, not of a constructor."""
    return any(e.kind == "call" and e.name == "_slot_index" for e, _ in deep(x.events))


def found_anywhere(x, objs):
    """(was the slot found in one of the signals, do the answers of each signal agree)"""
    ans = {}
    for a, p, _ in x.facts:
        for t in a[2:4]:
            if isinstance(t, tuple) and t and t[0] == "call" and t[1][0] in ("attr", "bound") and \
                    "_slot_index" in show(t[1]):
                o = t[1][1]
                other = [u for u in a[2:4] if u != t]
                if a[1] == "==" and other == [C(-1)] or a[1] == "<" and a[2] == t and other == [C(0)]:
                    ans.setdefault(o, set()).add(not p)
                elif a[1] in ("==", "isinstance", "is") and (
                        a[1] == "isinstance" and not p or a[1] != "isinstance" and p
                        and other == [C("all")]):
                    ans.setdefault(o, set()).update((True, False))     # not an index
    if any(len(v) > 1 for v in ans.values()):
        return None, False
    if any(True in v for v in ans.values()):
        return True, True
    return (False if set(objs) <= set(ans) else None), True


def container(r, g):
    """__len__, __iter__, __contains__, __getitem__ and the relay use one mapping."""
    got = {}
    for m in ("__len__", "__iter__", "__contains__", "__getitem__", "signals"):
        f = r.p.method(g, m)
        if f is None:
            r.note(f"no {m}")
            continue
        for x in r.run(f, g, noise=True):
            if x.kind != "ret":
                continue
            src = [place(t) for t in walk(x.val) if t[0] == "attr" and place(t)[1] == SELF]
            src += [place(e.recv) for e, _ in deep(x.events) if e.recv is not None
                    and place(e.recv)[0] == "attr" and place(e.recv)[1] == SELF]
            for a, _, _ in x.facts:
                src += [place(t) for t in walk(a) if t[0] == "attr" and place(t)[1] == SELF]
            got[m] = (set(src), f)
    main = got.get("__getitem__", (set(), None))[0]
    ok = {t[2] for t in main} | {"_psygnal_signals", relay_name(r, g)}
    for m, (ts, fm) in got.items():
        if not ts:
            r.note(f"{m} of a group not decided")
            continue
        r.ob("C18.names", m, {t[2] for t in ts} & ok, f"{m} of a group looks at "
             f"{', '.join(map(show, ts))}, item access at {', '.join(map(show, main))}", fm.node, fm)
    common = main
    f = r.p.method(g, "__init__")
    rn = relay_name(r, g)
    if not common or f is None or rn is None:
        r.note("construction of groups not decided")
        return
    fld = next(iter(common))[2]
    speak(r, g, fld)
    for x in r.run(f, g, opaque={"_create_signal_instance", "__get__"}, opaque_classes={"SignalRelay"}):
        if x.kind != "ret":
            continue
        st = {e.name: e for e, _ in deep(x.events) if e.kind == "store" and e.recv == SELF}
        al = [e for e in x.events if e.kind in ("alloc", "call") and e.name.endswith("SignalRelay")]
        if not al or fld not in st:
            r.fail("C18.relay", "made", "a new group has no relay or no signals", f.node, f)
            continue
        e = al[0]
        sigs, inst = e.arg(0, "signals"), e.arg(1, "instance")
        ok = sigs is not None and (sigs == st[fld].args[0] or place(sigs) == ("attr", SELF, fld))
        r.ob("C18.relay", "signals", ok, f"the relay of a group is made from {show(sigs) if sigs else '-'}"
             " instead of the group's signals", e.node, e.func)
        r.ob("C18.relay", "owner", inst is not None and place(inst) == P_("instance"),
             "the relay of a group does not belong to the group's owner", e.node, e.func)
        r.ob("C18.relay", "stored", rn in st and (st[rn].args[0] == e.res or st[rn].args[0] == e.recv
                                                  or e.name in show(st[rn].args[0])),
             "the relay made is not the group's relay", e.node, e.func)
        made(r, x, st[fld], f)


def speak(r, g, fld):
    """What a group with the signals a and connect (a reserved name) says of them."""
    text = ("from psygnal._group import SignalGroup\nclass G(SignalGroup):\n    def __init__(self, sigs):\n"
            f"        self.{fld} = sigs\n"
            "def client(s, t):\n    g = G({'a': s, 'connect': t})\n"
            "    return (len(g), tuple(iter(g)), g['a'], g['connect'], 'a' in g, 'connect' in g, "
            "'all' in g, 'x' in g, '__len__' in g)\n")
    want = [("len", C(2)), ("iter", ("tuple", (C("a"), C("connect")))), ("getitem", P_("s")),
            ("getitem", P_("t"))] + [("contains", C(v)) for v in (True, True, False, False, False)]
    for x in r.client(("C18", "speak"), text, opaque_classes=()):
        if x.kind != "ret":
            continue
        for i, ((m, w), v) in enumerate(zip(want, x.val[1])):
            f = r.p.method(g, f"__{m}__")
            if v[0] not in ("const", "tuple", "param", "bound"):
                r.note(f"{m} of a group of two not decided")
                continue
            r.ob("C18.names", f"{m}:{i}", v == w, f"__{m}__ of a group with the signals a and connect gives "
                 f"{show(v)} for {show(w)}", f.node, f)


def made(r, x, e, f):
    """The mapping has one signal for each declared name."""
    v = e.args[0]
    src = [t for t in walk(v) if isinstance(t, tuple)]
    el = x.st.heap.get((v, "$elts")) or ()
    for s in el:
        if s[0] == "each":
            r.ob("C18.names", "each", covers([cs for cs, _ in s[3]]), "some declared signals are left "
                 "out of a new group", e.node, e.func)
            for cs, tail in s[3]:
                r.ob("C18.names", "each", len(tail) == 1 and "_psygnal_signals" in show(s[2]),
                     "a declared signal is left out of a new group", e.node, e.func)
                for t in tail:
                    if t[0] == "item" and t[1][0] == "tuple" and len(t[1][1]) == 2:
                        k, w = t[1][1]
                        r.ob("C18.names", "key", k[0] in ("key", "elem", "item"),
                             f"a signal of a new group is filed under {show(k)}", e.node, e.func)


def subclass(r, g):
    f = r.p.method(g, "__init_subclass__")
    if f is None:
        r.note("no __init_subclass__")
        return
    cls = SELF
    for x in r.run(f, g):
        if x.kind != "ret":
            continue
        st = {}
        for e, _ in deep(x.events):
            if e.kind == "store" and place(e.recv) == cls:
                st[e.name] = e
            elif e.kind == "setattr" and place(e.recv) == cls and e.args and is_const(e.args[0]):
                st[e.args[0][2]] = e
        for fld, what, own in (("_psygnal_signals", "signals", None),
                               ("_psygnal_aliases", "aliases", "signal_aliases")):
            e = st.get(fld)
            if e is None:
                r.fail("C18.inherit", what, f"a new subclass of a group gets no {what}", f.node, f)
                continue
            v = e.args[-1]
            el = x.st.heap.get((v, "$elts"))
            if el is None:
                txt = show(v)
                base, mine = fld in txt, own is None or own in txt
            else:
                base = any(s[0] == "spread" and fld in show(s[1]) for s in el)
                mine = own is None or any(s[0] == "spread" and own in show(s[1]) for s in el)
                if own is None:
                    mine = any(s[0] != "spread" or fld not in show(s[1]) for s in el) or any(
                        True for s in el if s[0] == "each")
                order = [("base" if s[0] == "spread" and fld in show(s[1]) else "own") for s in el]
                r.ob("C18.inherit", what + ":order", "base" not in order or order.index("base") == 0,
                     f"{what} of the base win over those of the subclass", e.node, e.func)
            r.ob("C18.inherit", what + ":base", base or no_attr(x, fld), f"{what} of the base class are "
                 "lost in a subclass", e.node, e.func)
            if own:
                r.ob("C18.inherit", what + ":own", mine, f"{what} given to a subclass are ignored",
                     e.node, e.func)


UNIFORM = (
    ("no", (), True), ("one", (("int",),), True), ("same", (("int",), ("int",)), True),
    ("other", (("int",), ("str",)), False), ("longer", (("int",), ("int", "str")), False),
    ("shorter", (("int", "str"), ("int",)), False), ("none", ((), ("int",)), False),
    ("empty", ((), ()), True), ("swapped", (("int", "str"), ("str", "int")), False),
    ("last", (("int",), ("int",), ("str",)), False), ("first", (("str",), ("int",), ("int",)), False),
    ("middle", (("int",), ("str",), ("int",)), False), ("three", (("int",),) * 3, True),
    ("later", (("int", "int"), ("int", "str")), False),
)


def uniform(r, g):
    """Which sets of signals are uniform, and what a strict class does with one that is not."""
    h = r.p.funcs.get("psygnal._group._is_uniform")
    if h is None:
        r.note("how uniform groups are told is not decided")
        return
    for name, sigs, want in UNIFORM:
        made = ", ".join(f"Sg({', '.join(map(repr, a))})" for a in sigs)
        got = {x.val if x.kind == "ret" else None for x in r.client(("C18", "uniform", name), f"""from psygnal._group import _is_uniform
class Pm:
    def __init__(self, name, annotation):
        self.name = name
        self.annotation = annotation
class Sn:
    def __init__(self, ps):
        self.parameters = ps
class Sg:
    def __init__(self, *ts):
        ps = {{}}
        for i, t in enumerate(ts):
            ps[i] = Pm(i, t)
        self.signature = Sn(ps)
def client():
    return bool(_is_uniform([{made}]))
""")}
        if len(got) != 1 or not is_const(v := got.pop() or P_("x")):
            r.note(f"whether signals taking {sigs} are uniform is not decided")
            continue
        r.ob("C18.strict", name, v == C(want), f"signals taking {sigs} count as "
             f"{'uniform' if v == C(True) else 'not uniform'}", h.node, h)
    f = r.p.method(g, "__init_subclass__")
    for x in r.run(f, g, opaque={"_is_uniform"}):
        asked = [e for e, _ in deep(x.events) if e.kind == "call" and e.name == "_is_uniform"]
        ok = truth_of(x, asked[-1].res) if asked else None
        strict = truth_of(x, ("param", "strict"))
        if x.kind == "ret":
            r.ob("C18.strict", "refused", strict is False or ok is True, "a strict group whose signals differ is accepted", f.node, f)
            st = [e for e, _ in deep(x.events) if e.kind == "store" and e.name == "_psygnal_uniform"]
            if st and asked:
                v = place(st[-1].args[-1])
                r.ob("C18.strict", "stored", v == place(asked[-1].res) or is_const(v) and v[2] is ok,
                     f"whether a group is uniform is recorded as {show(v)}", st[-1].node, st[-1].func)
        elif asked:
            r.ob("C18.strict", "raise", strict is not False and ok is not True or asked[-1].extra.get("raised"),
                 "a uniform group, or one that is not strict, is refused", f.node, f)
        for e in asked:
            a = e.arg(0, "signals")
            kept = [q.args[-1] for q, _ in deep(x.events) if q.kind == "store" and q.name == "_psygnal_signals"]
            r.ob("C18.strict", "all", a is not None and any(t in kept or isinstance(
                t, tuple) and t[0] == "attr" and t[2] == "_psygnal_signals" for t in walk(a)), "only some signals of a group are asked whether they are "
                "uniform", e.node, e.func)


def no_attr(x, fld):
    return any(a[1] == "hasattr" and a[3] == C(fld) and not p for a, p, _ in x.facts)
