"""Obligations, findings and what was analysed, for one property."""

from __future__ import annotations

from .absint import Config, Engine
from .program import AnalysisBroken

#: helpers whose bodies are about messages, reprs or signature inspection; they have no
#: effect on signal state (checked by `Report.noise_is_pure`), so calls stay opaque.
NOISE = {"object_key", "object_repr", "_acceptable_posarg_range", "_get_signature_possibly_qt",
         "_parameter_types_match", "_build_signature", "signature", "EmitLoopError.__init__"}


class Report:
    def __init__(self, prop, prog, tier="quick"):
        self.prop = prop
        self.p = prog
        self.tier = tier
        self.obs = []            # (rule, construct, ok, what, loc)
        self.findings = {}       # key -> (what, loc)
        self.funcs = set()
        self.paths = 0
        self.sites = 0
        self.notes = []
        self.incomplete = []
        self.rules = {}

    def rule(self, rid, text):
        """Register the rule text (shown in the evidence)."""
        self.rules[rid] = text

    def ob(self, rule, construct, ok, what="", node=None, func=None):
        loc = self.loc(node, func)
        self.obs.append((rule, construct, bool(ok), loc))
        if not ok:
            self.findings.setdefault(f"{rule}|{construct}", (what, loc))
        return bool(ok)

    def fail(self, rule, construct, what, node=None, func=None):
        return self.ob(rule, construct, False, what, node, func)

    def loc(self, node=None, func=None):
        f = self.p.funcs.get(func) if isinstance(func, str) else func
        line = getattr(node, "lineno", None)
        if f is None and isinstance(func, str):
            # closure names look like outer.<name>
            q = func
            while q and q not in self.p.funcs:
                q = q.rpartition(".")[0]
            f = self.p.funcs.get(q)
        if f is not None:
            return f"{f.module.rel}:{line or f.node.lineno} ({f.qual})"
        return f"line {line}" if line else ""

    def run(self, func, cls=None, opaque=(), noise=True, **kw):
        """Analyse one function; returns its paths."""
        kw.setdefault("cap", 20000)
        setup = kw.pop("setup", None)
        op = set(opaque)
        if noise:
            op |= NOISE - {func.name}
        eng = Engine(self.p, Config(opaque=op, **kw))
        paths = eng.run(func, cls, setup=setup)
        self.funcs |= {q for q in eng.inlined if not q.startswith("psygnal.client")}
        self.paths += len(paths)
        if eng.incomplete:
            self.incomplete.append(func.qual)
        for x in paths:
            x.eng = eng  # keeps closures reachable for queries
        self.last = eng
        return paths

    def client(self, key, text, **kw):
        """Paths of a small client of the package (source text with one function `client`),
        analysed once per program and options."""
        cache = self.p.__dict__.setdefault("_clients", {})
        if key not in cache:
            kw.setdefault("nones", {"_debug_hook"})  # (C32 decides what an installed one gets)
            f = self.p.client(text)["client"]
            eng_paths = self.run(f, **kw)
            cache[key] = (f, eng_paths, self.last.inlined, list(self.incomplete))
        f, ps, inl, inc = cache[key]
        self.funcs |= {q for q in inl if not q.startswith("psygnal.client")}
        return ps

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)
