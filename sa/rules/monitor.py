"""C32: monitor_events and iter_signal_instances."""

from __future__ import annotations

from ..q import SELF, deep, place
from ..roles import signal_roles
from ..terms import C, NONE, show
from . import prop

SETUP = '''from psygnal.utils import iter_signal_instances, monitor_events
from psygnal._signal import SignalInstance
from psygnal._group import SignalGroup
class Sig(SignalInstance):
    def __init__(self):
        self.f = None
    def connect(self, f=None, **kw):
        self.f = f
        return f
    def disconnect(self, f=None, missing_ok=True):
        self.f = None
    def fire(self, *args):
        if self.f is not None:
            self.f(*args)
class Named:
    def connect(self, f):
        self.wrong = f
class H(SignalGroup):
    def __init__(self, a, b, relay):
        self.a = a
        self._b = b
        self._psygnal_relay = relay
    def __iter__(self):
        return iter(("a", "_b"))
    def __getitem__(self, k):
        return self.a if k == "a" else self._b
class G(SignalGroup):
    def __init__(self, a, b, relay):
        self.a = a
        self.b = b
        self._psygnal_relay = relay
    def __iter__(self):
        return iter(("a", "b"))
    def __getitem__(self, k):
        return self.a if k == "a" else self.b
    @property
    def all(self):
        return self._psygnal_relay
class O:
    def __init__(self, s, p, g):
        self.sig = s
        self._priv = p
        self.grp = g
        self.other = 1
        self.named = Named()
    @property
    def bad(self):
        raise AttributeError("x")
    def meth(self):
        pass
class Rec:
    def __init__(self, sink):
        self.sink = sink
    def log(self, info):
        self.sink(info)
    def __call__(self, info):
        self.sink(info)
'''
MAKE = '''    a = Sig()
    b = Sig()
    c = Sig()
    s = Sig()
    p = Sig()
    g = G(a, b, c)
    o = O(s, p, g)
'''
FORMS = {
    "function": "    def log(info):\n        sink(info)\n",
    "function with an option": "    def log(info, *, n=1):\n        sink(info)\n",
    "method": "    log = Rec(sink).log\n",
    "object": "    log = Rec(sink)\n",
}


@prop("C32", 30)
def c32(r):
    r.rule("C32.found", "every signal of an object is found once, a group by its relay, private "
                        "attributes only on request, and of a group its members")
    r.rule("C32.report", "while an object is monitored every emission of a signal found is reported "
                         "exactly once, to a logger of any form, with the signal and its arguments")
    r.rule("C32.left", "after the block, however it ends, nothing is reported any more")
    r.rule("C32.hook", "without an object the logger is installed for all signals, and what was "
                       "there before is back after the block, however it ends")
    r.rule("C32.emit", "what is installed for all signals gets every emission that is delivered, "
                       "made by emit or on resume, once, with the signal and its arguments, and "
                       "nothing else")
    found(r)
    reports(r)
    hook(r)
    emits(r)


def run(r, key, text):
    return [x for x in r.client(key, text, opaque_classes=(), noise=False)]


def listed(x, t):
    el = x.st.heap.get((t, "$elts"))
    if el is None or any(e[0] != "item" for e in el):
        return None
    return [e[1] for e in el]


def found(r):
    f = r.p.find_func("iter_signal_instances")
    n = 0
    for x in run(r, "iter", SETUP + "def client():\n" + MAKE + "    h = H(a, p, c)\n    return a, b, c, s, p, "
                 "list(iter_signal_instances(o)), list(iter_signal_instances(o, True)), "
                 "list(iter_signal_instances(g)), list(iter_signal_instances(h))\n"):
        if not r.ob("C32.found", "ends", x.kind == "ret", "looking for the signals of an object raises", f.node, f):
            continue
        n += 1
        a, b, c, s, p = x.val[1][:5]
        names = {a: "member a", b: "member b", c: "relay", s: "signal", p: "private signal"}
        for what, t, want in (("public", x.val[1][5], [s, c]), ("private", x.val[1][6], [s, p, c]),
                              ("group", x.val[1][7], [a, b]), ("named", x.val[1][8], [a, p])):
            got = listed(x, t)
            if got is None:
                r.note(f"what iter_signal_instances finds ({what}) is not decided")
                continue
            for w in {**dict.fromkeys(want), **dict.fromkeys(got)}:
                r.ob("C32.found", f"{what}:{names.get(w, 'other')}", got.count(w) == want.count(w),
                     f"{names.get(w, show(w))} is found {got.count(w)} times", f.node, f)
    r.need(n, "iter_signal_instances could not be followed")


def reports(r):
    f = r.p.find_func("monitor_events")
    for form, src in FORMS.items():
        for what, obj, priv, fired in (
                ("object", "o", "", "s p c"), ("group", "g", "", "a b"),
                ("private", "o", ", include_private_attrs=True", "s p c")):
            seen = {"o": "sc" if not priv else "spc", "g": "ab"}[obj]
            names = fired.split()
            body = "".join(f"            {n}.fire({i}, x)\n" for i, n in enumerate(names))
            text = (SETUP + "def client(sink, use, x):\n" + MAKE + src + "    sink(('made', a, b, c, s, p))\n"
                    "    try:\n"
                    f"        with monitor_events({obj}, log{priv}):\n" + body + "            use()\n"
                    f"            {names[0]}.fire(x)\n"
                    "    finally:\n" + "".join(f"        {n}.fire(9)\n" for n in names))
            once(r, f, f"{form}:{what}", text, [(n, i) for i, n in enumerate(names) if n in seen], names[0])


def once(r, f, tag, text, want, again):
    sink, use, xs = (("param", n) for n in ("sink", "use", "x"))
    n = 0
    for x in run(r, f"mon:{tag}", text):
        cs = [e for e, _ in deep(x.events) if e.kind == "call" and e.fn in (sink, use)]
        if not cs or cs[0].fn != sink or not cs[0].args or cs[0].args[0][0] != "tuple":
            r.fail("C32.report", f"{tag}:start", "the block is not entered", f.node, f)
            continue
        objs = dict(zip("abcsp", cs[0].args[0][1][1:]))
        exp = {(objs[k], ("tuple", (C(i), xs))) for k, i in want}
        got, gone, used, dup = set(), False, False, False
        bad = None
        n += 1
        for e in cs[1:]:
            if e.fn == use:
                used = True
                gone = bool(e.extra and e.extra.get("raised"))
                continue
            v = e.args[0] if len(e.args) == 1 else NONE
            pair = tuple(v[2]) if v[0] == "nt" and v[1].endswith("EmissionInfo") else None
            if e.extra and e.extra.get("raised"):
                gone = True
            if pair and len(pair) == 2 and pair[1] == ("tuple", (C(9),)):
                r.fail("C32.left", f"{tag}:{'raised' if gone else 'ended'}", "the logger still gets emissions "
                       "after the block", e.node, e.func)
                continue
            if used and pair == (objs[again], ("tuple", (xs,))):
                r.ob("C32.report", f"{tag}:later", not dup, "an emission is reported twice", e.node, e.func)
                dup = True
                continue
            if pair not in exp or pair in got:
                bad = e
                r.fail("C32.report", f"{tag}:what", f"the logger gets {show(v)}", e.node, e.func)
            got.add(pair)
        r.ob("C32.left", f"{tag}:after", True)
        if used and not bad:
            r.ob("C32.report", f"{tag}:all", got == exp, f"{len(got)} of {len(exp)} emissions are reported", f.node, f)
        if x.kind == "ret":
            r.ob("C32.report", f"{tag}:again", dup, "a later emission is not reported", f.node, f)
    r.need(n, f"monitor_events ({tag}) could not be followed")


def hook(r):
    f = r.p.find_func("monitor_events")
    for form, src in FORMS.items():
        text = (SETUP + "def client(sink, use, before):\n" + src + "    sink(log)\n"
                "    SignalInstance._debug_hook = before\n"
                "    try:\n        with monitor_events(logger=log):\n"
                "            sink(SignalInstance._debug_hook)\n            use()\n"
                "    finally:\n        sink(SignalInstance._debug_hook)\n")
        sink, before = ("param", "sink"), ("param", "before")
        n = 0
        for x in r.client(f"hook:{form}", text, opaque_classes=(), noise=False,
                          preserve={"_debug_hook"}):
            cs = [e.args[0] for e, _ in deep(x.events) if e.kind == "call" and e.fn == sink and e.args]
            if len(cs) < 2:
                r.fail("C32.hook", f"{form}:start", "the block is not entered", f.node, f)
                continue
            n += 1
            if len(cs) > 2:
                r.ob("C32.hook", f"{form}:installed", cs[1] == cs[0], f"{show(cs[1])} is installed", f.node, f)
            r.ob("C32.hook", f"{form}:{'ended' if x.kind == 'ret' else 'raised'}", cs[-1] == before,
                 f"{show(cs[-1])} is there after the block, not what was there before", f.node, f)
        r.need(n, "monitor_events without an object could not be followed")


def is_hook(e):
    return e.kind == "call" and (e.name == "_debug_hook" or e.fn and place(e.fn)[0] == "attr"
                                 and place(e.fn)[2] == "_debug_hook")


def unset(x):
    for a, p, _ in x.facts:
        t = place(a[2]) if isinstance(a[2], tuple) else NONE
        if t[0] == "attr" and t[2] == "_debug_hook":
            if a[1] == "is" and a[3] == NONE and p or a[1] in ("truth", "truthv") and not p:
                return True
    return False


def emits(r):
    R = signal_roles(r)
    loopm = r.p.method(R.cls, "_run_emit_loop").qual
    for name in ("emit", "resume"):
        f = r.p.method(R.cls, name)
        n = 0
        for x in r.run(f, R.cls, opaque={loopm.split(".")[-1]}):
            n += emission(r, f, name, x.events, unset(x), x.kind)
        r.need(n, f"{name} never delivers")


def emission(r, f, name, events, off, kind, inloop=False):
    """Each delivery among these events is reported once with what it delivers."""
    n = 0
    hooks, runs = [], []
    for e in events:
        if e.kind == "loop":
            for b in e.extra["bodies"]:
                n += emission(r, f, name, b.events, off or unset(b), b.kind, True)
        elif is_hook(e):
            hooks.append(e)
        elif e.kind == "call" and e.name == "_run_emit_loop":
            runs.append(e)
    if runs and not inloop or runs and inloop:
        n += 1
    if off:
        r.ob("C32.emit", f"{name}:off", not hooks, "nothing is installed, yet it is called", f.node, f)
        return n
    raised = any(h.extra and h.extra.get("raised") for h in hooks)
    if runs or not raised:
        r.ob("C32.emit", f"{name}:{'delivered' if runs else 'not delivered'}", len(hooks) == len(runs),
             f"{len(runs)} deliveries are reported {len(hooks)} times", (hooks or runs or [f])[0].node, f)
    for h, d in zip(hooks, runs):
        v = h.args[0] if len(h.args) == 1 else NONE
        r.ob("C32.emit", f"{name}:what", v[0] == "nt" and v[2] == (SELF, d.args[0]),
             f"the report is {show(v)}", h.node, h.func)
    return n
