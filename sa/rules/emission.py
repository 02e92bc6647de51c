"""C01-C05: what one emission does."""

from __future__ import annotations

import ast

from ..q import SELF, calls, deep, eq_const, loops, place, top, truth_of
from ..roles import signal_roles
from ..conds import split
from ..terms import C, NONE, is_const, show, walk
from . import prop

ARGS = ("param", "*args")


def emissions(r):
    """name -> paths of the public emission entry points, with nested emission summarised
    by the guarantee being proved (the depth counter is what it was)."""
    if not hasattr(r.p, "_emis"):
        R = signal_roles(r)
        out = {}
        for m in ("emit", "emit_fast"):
            out[m] = r.run(r.p.method(R.cls, m), R.cls, preserve={R.depth}, setup=natural(R))
        r.p._emis = (R, out, r.last)
    return r.p._emis


def natural(R):
    """Entry assumption: the nesting counter is never negative."""
    d = ("attr", SELF, R.depth, 0)

    def f(st, eng):
        st.facts.d[("op", "<", C(-1), d)] = True
        st.facts.d[("op", "<", d, C(0))] = False
    return f


def is_mark(a, R):
    """atom 'nesting counter < some other field' (the latest-only test)"""
    if a[1] != "<":
        return False
    (x, i), (y, j) = split(a[2]), split(a[3])
    # the counter on entry is one below the counter while callbacks run
    return place(x) == R.depth_t and y[0] == "attr" and y[1] == SELF and i - j == 1


def mode_of(x, R):
    for a, p, _ in x.facts:
        if p and a[1] in ("==", "is") and is_const(a[3]) and a[3][2] in (
                "queued", "latest-only", "immediate"):
            return a[3][2]
    return "immediate"


def is_slot_call(e, lp, R):
    """Does event e invoke the slot the loop lp is at?"""
    if e.kind != "call" or e.recv is None:
        return False
    el = ("elem", R.slots_t)
    rp = place(e.recv)
    return rp == el or (rp[0] == "item" and rp[1] == R.slots_t and rp[2][0] == "idx")


def slot_loops(x, R):
    return [(e, st) for e, st in loops(x.events) if e.recv is not None
            and place(e.recv) == R.slots_t and any(
                is_slot_call(b, e, R) for body in e.extra["bodies"] for b, _ in deep(body.events))
            or e.kind == "loop" and e.recv is not None and place(e.recv) == R.slots_t
            and e.extra.get("partial")]


def delivering(x, R):
    """Loops over the slots that invoke them, in order of appearance on the path (a loop
    nested in a drained queue appears once in the summary and once in the abandoned tail)."""
    return [(e, st) for e, st in loops(x.events)
            if e.recv is not None and place(e.recv) == R.slots_t]


def slot_calls(events, R):
    return [e for e, _ in deep(events) if is_slot_call(e, None, R)]


def raised_in_slot(e):
    return bool(e.extra) and isinstance(e.extra, dict) and e.extra.get("raised")


def ok_args(t, R):
    """The tuple handed to a slot is the emitted tuple."""
    if t == ARGS:
        return True
    p = place(t)
    if p[0] == "elem" and p[1] == R.emitq_t:
        return True
    return p[0] == "item" and p[1] == R.emitq_t and (p[2] == C(0) or p[2][0] == "idx")


def idle(x, R):
    """Path on which the signal was neither blocked nor paused."""
    return truth_of(x, R.blocked_t) is not True and truth_of(x, R.paused_t) is not True


@prop("C01", 20)
def c01(r):
    R, ems, eng = emissions(r)
    r.funcs |= eng.inlined
    r.rule("C01.body", "each iteration of a delivering loop invokes the current slot exactly once, "
                       "with exactly the emitted tuple")
    r.rule("C01.reach", "every unblocked, unpaused emission either delivers to all slots or is "
                        "queued behind the running one")
    r.rule("C01.once", "no path delivers the same emission twice")
    r.rule("C01.order", "the loop ranges over the slot list itself, front to back")
    r.rule("C01.live", "the slot list is not iterated live while callbacks can remove from it")
    r.rule("C01.check", "argument checks run before any effect and reject without delivering")
    r.rule("C01.call", "calling the signal is emitting it")
    for m, paths in ems.items():
        f = r.p.method(R.cls, m)
        r.paths += len(paths)
        nloops = 0
        for x in paths:
            mode = mode_of(x, R)
            dl = delivering(x, R)
            for lp, stack in dl:
                nloops += 1
                if not lp.extra["snap"]:
                    r.fail("C01.live", "slots", "the live slot list is iterated while callbacks "
                           "run: a callback that disconnects itself or an earlier one makes the "
                           "next callback miss this emission", lp.node, lp.func)
                for b in lp.extra["bodies"]:
                    cs = slot_calls(b.events, R)
                    r.ob("C01.body", f"{m}:{mode}:count", len(cs) == 1,
                         f"a slot is invoked {len(cs)} times in one iteration when "
                         f"{facts(b)}", lp.node, lp.func)
                    for c in cs:
                        a = [*c.args, *(v for _, v in c.kw)]
                        r.ob("C01.body", f"{m}:{mode}:args", len(a) == 1 and ok_args(a[0], R),
                             f"slot receives {', '.join(map(show, a))} instead of the emitted "
                             "arguments", c.node, c.func)
            for c in slot_calls(x.events, R):
                a = [*c.args, *(v for _, v in c.kw)]
                r.ob("C01.body", f"{m}:{mode}:args", len(a) == 1 and ok_args(a[0], R),
                     f"slot receives {', '.join(map(show, a))} instead of the emitted arguments",
                     c.node, c.func)
            for c in calls(x.events):
                if c.recv is not None and place(c.recv) == R.emitq_t and c.name in (
                        "append", "appendleft", "insert", "extend", "put"):
                    r.ob("C01.body", f"{m}:{mode}:queued", c.name in ("append", "put")
                         and c.args and c.args[0] == ARGS,
                         f"what is queued is {', '.join(map(show, c.args))} via {c.name}, not the "
                         "emitted arguments at the end", c.node, c.func)
            if x.kind == "ret" and idle(x, R):
                outer = [1 for lp, st in dl if not st and not (
                    lp.extra.get("partial") and mode == "queued")]
                qloops = [1 for lp, st in dl if st]
                qs = list(calls(x.events, recv=R.emitq_t))
                queued = bool(qs) and all(c.name in ("append", "put") for c in qs)
                deferred = queued and not dl and any(
                    place(a[2]) == ("op", "len", R.emitq_t) or (
                        a[1] in ("truthv", "truth") and place(a[2]) == R.emitq_t)
                    for a, _, _ in x.facts)
                r.ob("C01.reach", f"{m}:{mode}", bool(outer or qloops) or deferred,
                     f"the emission returns without invoking the slots when {facts(x)}",
                     f.node, f)
                r.ob("C01.once", f"{m}:{mode}", len(outer) + (1 if qloops else 0) <= 1,
                     "the slots are looped over more than once for one emission", f.node, f)
                part = [lp for lp, st in dl if lp.extra.get("partial") and not st]
                r.ob("C01.reach", f"{m}:{mode}:all", not part or mode == "latest-only",
                     f"delivery stops before the last slot when {facts(x)}",
                     part[0].node if part else f.node, f)
        r.ob("C01.order", m, nloops > 0,
             "no loop over the slot list, front to back, was found on any emitting path",
             f.node, f)
        checks(r, R, m, paths, f)
    # __call__
    f = r.p.method(R.cls, "__call__")
    ps = r.run(f, R.cls, opaque={"emit"})
    for x in ps:
        cs = [c for c in calls(x.events, "emit")]
        if not cs:
            continue
        ok = len(cs) == 1 and cs[0].args == (("star", ARGS),) and all(
            cs[0].kwd(k) == ("param", k) for k in ("check_nargs", "check_types"))
        r.ob("C01.call", "__call__", ok, f"__call__ forwards {cs!r} to emit", f.node, f)
    if not all(list(calls(x.events, "emit")) or x.kind == "raise" for x in ps):
        full = [x for x in r.run(f, R.cls, preserve={R.depth}) if delivering(x, R)]
        r.ob("C01.call", "__call__", bool(full), "calling the signal does not emit", f.node, f)

        def lined_up(x):
            return any(place(c.recv) == R.emitq_t and ARGS in c.args for c in calls(x.events)
                       if c.recv is not None)
        if all(lined_up(x) for x in ems.get("emit", ()) if delivering(x, R)):
            r.ob("C01.call", "__call__:queued", all(map(lined_up, full)), "calling the signal delivers at once "
                 "what emitting it lines up behind the running emission", f.node, f)


def checks(r, R, m, paths, f):
    names = {a.arg for a in f.node.args.kwonlyargs + f.node.args.args}
    for flag, fn in (("check_nargs", "bind"), ("check_types", "_parameter_types_match")):
        if flag not in names:
            continue
        for x in paths:
            want = truth_of(x, ("param", flag))
            done = [c for c in calls(x.events) if c.name == fn]
            if want is not False and truth_of(x, R.blocked_t) is not True and x.kind == "ret":
                r.ob("C01.check", f"{m}:{flag}", done,
                     f"{flag} may be requested but nothing is checked when {facts(x)}", f.node, f)
            if want and done and fn == "bind":
                r.ob("C01.check", f"{m}:{flag}:args", all(
                    c.args == (("star", ARGS),) for c in done),
                     "what is checked is not the emitted arguments", done[0].node, f)
            if want is not True and done and x.kind == "ret":
                r.fail("C01.check", f"{m}:{flag}:unasked", f"{flag} runs though not requested",
                       done[0].node, f)
    for x in paths:
        # effects before an argument error
        if x.kind != "raise" or not (x.val and x.val[0] == "exc" and x.val[1]
                                     and x.val[1][1].endswith("TypeError")):
            continue
        eff = [e for e, _ in deep(x.events) if is_slot_call(e, None, R) or (
            e.kind == "call" and e.recv is not None
            and place(e.recv) in (R.argsq_t, R.emitq_t)) or (
            e.kind == "store" and e.recv == SELF)]
        r.ob("C01.check", f"{m}:noeffect", not eff,
             f"arguments are rejected after {eff[:1]!r} already happened", f.node, f)
    for x in paths:
        if x.kind == "ret" and truth_of(x, ("op", "x")) is None:
            bad = [a for a, p, _ in x.facts if not p and a[1] in ("truth", "truthv")
                   and a[2][0] == "call" and place(a[2][1])[-1] == "psygnal._signal._parameter_types_match"]
            r.ob("C01.check", f"{m}:types", not bad,
                 "a type mismatch is ignored", f.node, f)


def facts(x, limit=6):
    s = [("" if p else "not ") + show(a) for a, p, _ in x.facts[:limit]]
    return " and ".join(s) or "always"


def max_field(paths, R):
    for x in paths:
        for a, p, _ in x.facts:
            if is_mark(a, R):
                return split(a[3])[0][2]
        for e, _ in deep(x.events):
            if e.kind == "loop":
                for b in e.extra["bodies"]:
                    for a, p, _ in b.facts:
                        if is_mark(a, R):
                            return split(a[3])[0][2]
    return None


@prop("C02", 8)
def c02(r):
    R, ems, eng = emissions(r)
    r.funcs |= eng.inlined
    r.rule("C02.modes", "each of the three re-emission modes has its own delivery structure")
    r.rule("C02.now", "immediate and latest-only: the item is off the queue before callbacks run, "
                      "so a nested emission is delivered at once")
    r.rule("C02.defer", "queued: the item stays on the queue while its callbacks run, a nested "
                        "emission is appended and left to the running drain, and the drain visits "
                        "every entry front to back")
    r.rule("C02.latest", "latest-only: after a deeper emission ran, the remaining slots of the "
                         "outer one are skipped; no other mode skips")
    r.rule("C02.restore", "an unpickled or copied signal dispatches each mode as a new one does")
    paths = ems["emit"]
    f = r.p.method(R.cls, "emit")
    seen = set()
    MX = max_field(paths, R)
    for x in paths:
        if not idle(x, R):
            continue
        mode = mode_of(x, R)
        dl = delivering(x, R)
        qev = [(e, st) for e, st in deep(x.events) if e.kind == "call" and e.recv is not None
               and place(e.recv) == R.emitq_t and not (e.extra or {}).get("raised")]
        if dl:
            seen.add((mode, "deliver"))
        if dl and mode != "queued":
            lp = dl[0][0]
            n = 0
            emptied = False
            for e in x.events:
                if e is lp:
                    break
                if e.kind == "call" and e.recv is not None and place(e.recv) == R.emitq_t:
                    if e.name in ("append", "put"):
                        n += 1
                    elif e.name in ("popleft", "pop", "get", "get_nowait"):
                        n -= 1
                    elif e.name == "clear":
                        n, emptied = 0, True
            r.ob("C02.now", mode, n <= 0, "the emitted item is still on the queue while callbacks "
                 "run, so a nested emission is postponed", lp.node, lp.func)
        if dl and mode == "queued":
            for lp, st in dl:
                fresh_slots(r, R, lp, st)
                early = [e for e, _ in qev if e.name in ("popleft", "pop", "clear", "remove")
                         and before(x, e, lp)]
                r.ob("C02.defer", "kept", not early,
                     "the item leaves the queue before its callbacks ran, so a nested emission is "
                     "delivered in the middle of the current one",
                     early[0].node if early else lp.node, lp.func)
                drained = [s for s in st if place(s.recv or ()) == R.emitq_t or s.extra["while"]]
                if not st and lp.extra.get("partial"):
                    continue
                r.ob("C02.defer", "drain", drained or in_partial_drain(x, lp, R),
                     "queued emissions are not drained after the current one", lp.node, lp.func)
                for s in st:
                    if s.recv is not None and place(s.recv) == R.emitq_t and not s.extra["while"] \
                            and not s.extra["index"]:
                        r.fail("C02.defer", "livequeue", "the queue is iterated while nested "
                               "emissions append to it", s.node, s.func)
        for e, st in deep(x.events) if dl else ():
            if e.kind in ("call", "setitem", "delitem") and e.recv is not None and place(e.recv) == R.emitq_t \
                    and st and not (e.extra or {}).get("raised"):
                moved = e.kind == "setitem" or e.kind == "delitem" and e.args[0] not in (C(0), C(-1)) \
                    and e.args[0][0] not in ("slice3", "slice") or e.kind == "call" and e.name in (
                    "append", "appendleft", "insert", "extend", "extendleft", "reverse", "rotate", "sort")
                r.ob("C02.defer", "order", not moved, "the emissions waiting are rearranged while they are "
                     f"delivered ({e.name or e.kind})", e.node, e.func)
        if not dl and x.kind == "ret" and any(e.name == "append" for e, _ in qev):
            seen.add((mode, "nested"))
            bad = [e for e, _ in qev if e.name != "append"]
            r.ob("C02.defer", "nested", not bad,
                 "a nested emission disturbs the queue it was appended to",
                 bad[0].node if bad else f.node, f)
        # the decision 'something is already being emitted'
        for a, p, nd in x.facts:
            if a[1] == "<" and a[2][0] == "op" and a[2][1] == "len" and place(a[2][2]) == R.emitq_t \
                    and is_const(a[3]) and a[3][2] < 50:
                k = a[3][2]
                r.ob("C02.defer", "threshold", k == 2,
                     f"nested emissions are recognised by a queue length of {k} instead of 2",
                     nd, f)
        # skipping
        for lp, st in dl:
            tests = [a for b in lp.extra["bodies"] for a, p, _ in b.facts
                     if is_mark(a, R)]
            stops = lp.extra.get("partial") and x.kind == "ret" and not st
            if mode == "latest-only":
                r.ob("C02.latest", "test", tests or lp.extra.get("partial"),
                     "latest-only does not stop the outer emission after a nested one",
                     lp.node, lp.func)
                for b in lp.extra["bodies"]:
                    t = [i for i, (a, p, _) in enumerate(b.facts)
                         if is_mark(a, R) and not p]
                    c = slot_calls(b.events, R)
                    r.ob("C02.latest", "guard", t or not c,
                         "a slot is invoked without checking whether a newer emission ran",
                         lp.node, lp.func)
                if stops:
                    seen.add((mode, "skip"))
            elif stops and mode == "immediate":
                r.fail("C02.latest", "immediate-skips", "an immediate emission skips slots",
                       lp.node, lp.func)
    for k in (("immediate", "deliver"), ("queued", "deliver"), ("latest-only", "deliver"),
              ("latest-only", "skip")):
        r.ob("C02.modes", ":".join(k), k in seen, f"no path {k[1]}s in {k[0]} mode", f.node, f)
    r.ob("C02.defer", "nested-exists", any(k[1] == "nested" for k in seen),
         "no path leaves a nested emission to the running drain", f.node, f)
    if MX:
        latest_counter(r, R, paths, MX, f)
    restore_dispatch(r, R)


def fresh_slots(r, R, lp, st):
    """The slots an entry of the queue is delivered to are those connected when its turn comes."""
    if not st or not lp.extra["snap"]:
        return
    ok = False
    for b in st[-1].extra["bodies"]:
        ev = [e for e, _ in deep(b.events)]
        if lp in ev:
            ok = any(e.kind == "snap" and place(e.recv) == R.slots_t for e in ev[:ev.index(lp)])
            r.ob("C02.defer", "stale-slots", ok, "queued emissions are delivered to the callbacks that "
                 "were connected when the first one started", lp.node, lp.func)


def before(x, e, lp):
    """e happens before loop lp on the path (or in the same enclosing iteration)."""
    order = [id(a) for a, _ in deep(x.events)]
    try:
        return order.index(id(e)) < order.index(id(lp))
    except ValueError:
        return False


def in_partial_drain(x, lp, R):
    i = [id(e) for e in x.events].index(id(lp)) if any(e is lp for e in x.events) else -1
    return any(e.kind == "loop" and e.extra.get("partial") and (
        place(e.recv or ()) == R.emitq_t or e.extra["while"]) for e in x.events[:max(i, 0)])


def latest_counter(r, R, paths, MX, f):
    """The high-water mark is raised on entry and cleared by the outermost emission."""
    for x in paths:
        dl = delivering(x, R)
        if not dl or mode_of(x, R) != "latest-only":
            continue
        lp = dl[0][0]
        ups = []
        for e in x.events:
            if e is lp:
                break
            if e.kind == "store" and e.recv == SELF and e.name == MX:
                ups.append(e)
        ok = any(any(place(t) == ("attr", SELF, MX) for t in walk(e.args[0]))
                 and any(place(t) == R.depth_t for t in walk(e.args[0])) for e in ups)
        r.ob("C02.latest", "highwater", ok or (ups and any(
            a[1] == "<" and (place(a[2]) == ("attr", SELF, MX) or place(a[3]) == ("attr", SELF, MX))
            for a, _, _ in x.facts)) or any(
            a[1] == "<" and place(a[2]) == ("attr", SELF, MX) for a, _, _ in x.facts),
             "the deepest emission level is not recorded before callbacks run", lp.node, lp.func)


def restore_dispatch(r, R):
    """Function-valued fields chosen by the constructor are chosen alike by __setstate__."""
    c = R.cls
    ini = {}
    # the alternatives need the facts of the constructor run
    p = r.p
    for who in ("__init__", "__setstate__"):
        got = {}
        for x in r.run(p.method(c, who), c, noise=True):
            if x.kind != "ret":
                continue
            md = [(a[3][2], pol) for a, pol, _ in x.facts
                  if a[1] in ("==", "is") and is_const(a[3]) and a[3][2] in (
                      "queued", "latest-only", "immediate")]
            mode = next((m for m, pol in md if pol), "other")
            for (b, n), v in x.st.heap.items():
                if b == SELF and v[0] == "bound":
                    got.setdefault(n, {}).setdefault(mode, set()).add(v[2])
        ini[who] = got
    a, b = ini["__init__"], ini["__setstate__"]
    f = p.method(c, "__setstate__")
    for n, alts in a.items():
        if n not in p.attr_stores:
            continue
        r.ob("C02.restore", n, b.get(n) == alts or (len(alts) == 1 and n in b and set().union(
            *b[n].values()) == set().union(*alts.values())),
             f"after unpickling, {n} is chosen as {short(b.get(n))}, a new signal chooses "
             f"{short(alts)}", f.node, f)
    r.ob("C02.restore", "fields", True)


def short(d):
    if not d:
        return "nothing"
    return ", ".join(f"{k}->{'/'.join(sorted(q.split('.')[-1] for q in v))}"
                     for k, v in sorted(d.items()))


@prop("C03", 20)
def c03(r):
    R, ems, eng = emissions(r)
    r.funcs |= eng.inlined
    r.rule("C03.depth", "on every exit of an emission the nesting counter is what it was")
    r.rule("C03.queue", "on every exit of an outermost emission nothing is left on the queue")
    r.rule("C03.emitter", "on every exit the current emitter is what it was")
    r.rule("C03.lock", "on every exit every lock acquired was released")
    r.rule("C03.mark", "the outermost emission clears the latest-only mark on every exit")
    r.rule("C03.keep", "nothing keeps the emitted arguments or the callbacks once the emission is over")
    for m, paths in ems.items():
        f = r.p.method(R.cls, m)
        MX = max_field(paths, R)
        keeps(r, m, f, paths, R)
        for x in paths:
            how = exit_name(x)
            dl = delivering(x, R)
            cs = slot_calls(x.events, R)
            fin = x.st.heap.get((SELF, R.depth))
            ok = fin is None or place(fin) == R.depth_t
            if not ok and fin == C(0):
                d = x.st.facts.decide(("op", "<", C(0), fin0(R)))
                ok = outermost(x, R)
            r.ob("C03.depth", f"{m}:{how}", ok,
                 f"the nesting counter ends as {show(fin) if fin else '?'} on an exit by "
                 f"{how} when {facts(x, 9)}", f.node, f)
            r.ob("C03.lock", f"{m}:{how}", not x.st.locks,
                 "a lock is still held at exit", f.node, f)
            # queue
            qn = [(e, i) for i, e in enumerate(x.events) if e.kind == "call"
                  and e.recv is not None and place(e.recv) == R.emitq_t
                  and not (e.extra or {}).get("raised")]
            if qn and (dl or cs or x.kind == "raise"):
                last_cb = max([i for i, e in enumerate(x.events)
                               if e.kind == "loop" or is_slot_call(e, None, R)] or [-1])
                n = 0
                drained = False
                for e, i in qn:
                    if e.name in ("append", "put", "appendleft"):
                        n += 1
                        drained = False
                    elif e.name in ("popleft", "pop"):
                        n -= 1
                    elif e.name == "clear":
                        n = 0
                        drained = i > last_cb
                inloop = [e for e, st in deep(x.events) if st and e.kind == "call" and e.recv
                          is not None and place(e.recv) == R.emitq_t]
                ok = drained or (n <= 0 and mode_of(x, R) != "queued") or (
                    x.kind == "ret" and bool(inloop) and not any(
                        e.kind == "loop" and e.extra.get("partial") for e in x.events))
                r.ob("C03.queue", f"{m}:{mode_of(x, R)}:{how}", ok,
                     f"entries stay on the emission queue after an exit by {how} when "
                     f"{facts(x, 9)}: every later emission would be swallowed or replayed",
                     f.node, f)
            # shared 'who is emitting' state
            for (b, n), v in x.st.heap.items():
                if n.startswith("$") or b == SELF:
                    continue
                sets = [e for e in top(x.events) if e.kind == "store" and e.name == n
                        and e.recv == b]
                if not sets or not any(e.args[0] == SELF for e in sets):
                    continue
                ok = place(v) == ("attr", b, n) or (v != SELF and saved(x, b, n, v))
                r.ob("C03.emitter", f"{m}:{how}", ok,
                     f"after the emission {show(b)}.{n} stays {show(v)}", sets[0].node,
                     sets[0].func)
            if MX and (dl or cs):
                fin = x.st.heap.get((SELF, MX))
                if outermost(x, R):
                    r.ob("C03.mark", f"{m}:{how}", fin == C(0) or not any(
                        e.kind == "store" and e.recv == SELF and e.name == MX
                        for e, _ in deep(x.events)),
                         f"the latest-only mark ends as {show(fin) if fin else '?'}", f.node, f)
        if MX and m == "emit":
            r.ob("C03.mark", "emit:reset-exists", any(
                x.st.heap.get((SELF, MX)) == C(0) for x in paths if delivering(x, R)),
                 "no exit of the outermost emission clears the latest-only mark, so the next "
                 "emission skips callbacks", f.node, f)
            inner = [x for x in paths if delivering(x, R) and x.st.heap.get((SELF, MX)) == C(0)]
            r.ob("C03.mark", "emit:reset-outermost", all(outermost(x, R) for x in inner),
                 "a nested emission clears the latest-only mark of the one around it", f.node, f)


def keeps(r, m, f, paths, R):
    """The last value stored on each lasting object holds neither the arguments nor a callback."""
    for x in paths:
        last = {}
        taken = {("elem", R.slots_t)}
        for e, _ in deep(x.events):
            if e.kind == "call" and e.recv is not None and place(e.recv) == R.emitq_t and \
                    e.name in ("popleft", "pop", "__getitem__") and e.res is not None:
                taken.add(place(e.res))
            if e.kind == "store" and e.recv is not None and e.args and (
                    e.recv == SELF or e.recv[0] in ("glob", "cls", "attr", "global")):
                last[(e.recv, e.name)] = e
        for (b, n), e in sorted(last.items(), key=str):
            held = [t for t in walk(e.args[0]) if t[:1] == ("param",) and t[1].startswith("*")
                    or place(t) in taken or t[0] == "item" and place(t[1]) in (R.slots_t, R.emitq_t)]
            r.ob("C03.keep", f"{m}:{n}", not held, f"{show(b)}.{n} still refers to {show(held[0]) if held else ''} "
                 f"after the emission ({mode_of(x, R)})", e.node, e.func)


def fin0(R):
    return ("attr", SELF, R.depth, 0)


def outermost(x, R):
    """Facts of the path say the counter was 0 on entry."""
    for a, p, _ in x.facts:
        if a[1] == "<" and is_const(a[2]) and a[2][2] == 0 and place(a[3]) == R.depth_t and not p:
            return True
        if a[1] == "<" and place(a[2]) == R.depth_t and is_const(a[3]) and a[3][2] == 1 and p:
            return True
        if a[1] == "==" and place(a[2]) == R.depth_t and is_const(a[3]) and a[3][2] == 0 and p:
            return True
        if a[1] in ("truth", "truthv") and place(a[2]) == R.depth_t and not p:
            return True
    return False


def saved(x, b, n, v):
    """v was read from the same place before the store."""
    if v == NONE and any(a[1] == "hasattr" and not pol and a[2] == b and a[3] == C(n)
                         for a, pol, _ in x.facts):
        return True     # nothing was there; reading it gives the same None
    return place(v) == ("attr", b, n) or (v[0] == "call" and any(
        t == C(n) for t in walk(v)))


def exit_name(x):
    if x.kind != "raise":
        return "return"
    v = x.val
    if v and v[0] == "obj":
        return v[2].split(".")[-1]
    if v and v[0] == "exc":
        if v[1]:
            return v[1][1].split(".")[-1]
        return "callback error"
    return "exception"


def user_exc(t):
    return isinstance(t, tuple) and t and t[0] == "exc" and t[1] is None


@prop("C04", 8)
def c04(r):
    R, ems, eng = emissions(r)
    r.funcs |= eng.inlined
    r.rule("C04.wrap", "an ordinary callback exception leaves the emission as EmitLoopError naming "
                       "this signal, with the original as its cause")
    r.rule("C04.nested", "an EmitLoopError from a nested emission passes through unwrapped")
    r.rule("C04.recursion", "RecursionError stays RecursionError")
    r.rule("C04.base", "exceptions outside Exception (KeyboardInterrupt) pass unchanged")
    r.rule("C04.swallow", "no path returns normally after a callback raised")
    r.rule("C04.ctor", "EmitLoopError keeps the exception it is given as its cause")
    r.rule("C04.text", "building the error never fails: the texts of the exception, of the arguments and of "
                       "the object are only taken where a failure is caught")
    messages(r, R, ems)
    done = set()
    for m, paths in ems.items():
        f = r.p.method(R.cls, m)
        for x in paths:
            raised = [e.extra["raised"] for e in slot_calls(x.events, R) if raised_in_slot(e)]
            raised = [t for t in raised if user_exc(t)]
            if not raised:
                continue
            exc = raised[-1]
            if not x.kind == "raise":
                r.fail("C04.swallow", m, f"a callback raised but the emission ends normally when "
                       f"{facts(x, 9)}", f.node, f)
                continue
            r.ob("C04.swallow", m, True)

            def isa(name):
                for a, p, _ in x.facts:
                    if a[1] == "isinstance" and a[2] == exc and a[3][0] in ("ext", "cls") \
                            and a[3][1].split(".")[-1] == name:
                        return p
                return None
            v = x.val
            cause = x.st.heap.get((v, "__cause__"))
            if isa("RecursionError"):
                done.add("rec")
                ok = v == exc or (v[0] == "exc" and v[1] and v[1][1].endswith("RecursionError"))
                r.ob("C04.recursion", m, ok, f"RecursionError leaves as {show(v)}", f.node, f)
                r.ob("C04.recursion", m + ":cause", v == exc or cause == exc,
                     "the original RecursionError is lost", f.node, f)
            elif isa("EmitLoopError"):
                done.add("nest")
                r.ob("C04.nested", m, v == exc, f"an EmitLoopError of a nested emission leaves as "
                     f"{show(v)}", f.node, f)
            elif isa("Exception") or (isa("Exception") is None and isa("BaseException")):
                done.add("wrap")
                ok = v[0] == "obj" and v[2].endswith(".EmitLoopError")
                r.ob("C04.wrap", m, ok, f"a callback exception leaves as {show(v)}", f.node, f)
                if ok:
                    al = [e for e, _ in deep(x.events) if e.kind == "alloc" and e.res == v
                          or e.kind == "alloc" and e.recv == v]
                    e = al[-1] if al else None
                    given = e.arg(0, "exc") if e else None
                    r.ob("C04.wrap", m + ":exc", e is None or given == exc,
                         f"EmitLoopError reports {show(given) if given else '?'} instead of the "
                         "callback's exception", e.node if e else f.node, f)
                    sig = e.arg(1, "signal") if e else None
                    r.ob("C04.wrap", m + ":signal", e is None or sig == SELF,
                         "EmitLoopError does not name the emitting signal",
                         e.node if e else f.node, f)
                    r.ob("C04.wrap", m + ":cause", cause in (exc, None),
                         f"__cause__ is {show(cause) if cause else '?'}", f.node, f)
            elif isa("Exception") is False:
                done.add("base")
                r.ob("C04.base", m, v == exc, f"an exception outside Exception leaves as {show(v)}",
                     f.node, f)
            else:
                # never classified: the handler order does not distinguish anything
                r.ob("C04.wrap", m + ":unclassified", False,
                     f"a callback exception leaves as {show(v)} without being classified when "
                     f"{facts(x, 9)}", f.node, f)
        for k in ("rec", "nest", "wrap", "base"):
            r.ob("C04.wrap", f"{m}:has-{k}", k in done,
                 f"no path handles the '{k}' kind of callback exception", f.node, f)
        done = set()
    c = r.p.find_class("EmitLoopError")
    f = r.p.method(c, "__init__")
    ps = r.run(f, c, opaque={"_build_psygnal_exception_msg", "_fmt_frame", "_fmt_locals"},
               noise=False)
    for x in ps:
        if x.kind == "ret":
            cz = x.st.heap.get((SELF, "__cause__"))
            st = [e for e, _ in deep(x.events) if e.kind in ("store", "setattr")
                  and e.name == "__cause__"]
            r.ob("C04.ctor", "__cause__", (st and st[-1].args[-1] == ("param", "exc")),
                 f"EmitLoopError built from an exception has cause {show(cz) if cz else 'nothing'}",
                 f.node, f)


def messages(r, R, ems):
    from ..textsafe import Text
    from .state import mentions
    t = Text(r.p)
    f = r.p.method(r.p.find_class("EmitLoopError"), "__init__")
    t.function(f, {a.arg for a in f.node.args.args[1:] if a.arg in ("exc", "signal", "emit_queue")})
    places = t.places
    reached = set().union(*(mentions(r.p, R.cls, m) for m in ems))
    for k, g in R.cls.methods.items():
        if k not in reached:
            continue
        called = {c.func.attr for c in ast.walk(g.node) if isinstance(c, ast.Call)
                  and isinstance(c.func, ast.Attribute)}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Try) and any(
                    isinstance(c, ast.Attribute)
                    and isinstance(c.value, ast.Name) and c.value.id == g.node.args.args[0].arg
                    and (c.attr == R.slots or c.attr in called and R.slots in mentions(r.p, R.cls, c.attr))
                    for s in n.body for c in ast.walk(s)) and n.handlers:
                ps = {a.arg for a in g.node.args.args[1:]} | ({g.node.args.vararg.arg} if g.node.args.vararg else set())
                for h in n.handlers:
                    T = t.locals_of(g, ps | ({h.name} if h.name else set()))
                    for s in h.body:
                        t.visit(s, T, g, False)
                    places += 1
            elif isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and isinstance(n.exc.func, ast.Name) \
                    and n.exc.func.id == "RecursionError":
                ps = {a.arg for a in g.node.args.args[1:]} | ({g.node.args.vararg.arg} if g.node.args.vararg else set())
                t.visit(n, t.locals_of(g, ps), g, False)
                places += 1
    r.need(places, "no message of an emission error was found")
    r.ob("C04.text", "places", True)
    for g, n, what in t.hits:
        r.ob("C04.text", f"{g.node.name}:{what}", False, f"the text of {what} is taken while the error is built; "
             "when that fails, another exception leaves the emission", n, g)
    for _ in range(t.places - len(t.hits)):
        r.ob("C04.text", "safe", True)


@prop("C05", 6)
def c05(r):
    R, ems, eng = emissions(r)
    r.funcs |= eng.inlined
    r.rule("C05.limit", "callbacks run only while the nesting counter is below the limit; at the "
                        "limit RecursionError is raised before any of them")
    r.rule("C05.count", "callbacks run with the counter one higher than on entry")
    r.rule("C05.queue", "a queued drain raises RecursionError once the backlog exceeds the limit")
    for m, paths in ems.items():
        f = r.p.method(R.cls, m)
        lim = False
        for x in paths:
            dl = [lp for lp, _ in delivering(x, R)]
            over = [p for a, p, _ in x.facts if a[1] == "<" and place(a[2]) == R.depth_t
                    and is_const(a[3]) and a[3][2] >= 50]
            if over and over[0] is False:
                lim = True
                ok = x.kind == "raise" and x.val[0] == "exc" and x.val[1] and x.val[1][1].endswith(
                    "RecursionError") and not dl
                r.ob("C05.limit", f"{m}:raise", ok, f"at the limit the emission ends by "
                     f"{exit_name(x)}", f.node, f)
            if dl:
                first = dl[0]
                r.ob("C05.limit", f"{m}:guard", over and over[0] is True,
                     f"callbacks run without a check of the nesting limit when {facts(x)}",
                     first.node, first.func)
                d = None
                for e in x.events:
                    if e is first or (e.kind == "loop" and any(
                            y is first for y, _ in deep([e]))):
                        break
                    if e.kind == "store" and e.recv == SELF and e.name == R.depth:
                        d = e.args[0]
                up = d is not None and d[0] == "op" and d[1] == "+" and place(d[2]) == R.depth_t \
                    and d[3] == C(1)
                r.ob("C05.count", m, up, f"while callbacks run the nesting counter is "
                     f"{show(d) if d else 'unchanged'}", first.node, first.func)
        r.ob("C05.limit", f"{m}:exists", lim, "the nesting limit is never checked", f.node, f)
    paths = ems["emit"]
    f = r.p.method(R.cls, "emit")
    found = False
    for x in paths:
        if mode_of(x, R) != "queued":
            continue
        for lp, st in delivering(x, R):
            if not st:
                continue
            found = True
            guarded = False
            for s in st:
                for b in s.extra["bodies"]:
                    for a, p, _ in [*b.facts, *(z for q, _ in deep(b.events) if q.kind == "loop"
                                                for bb in q.extra["bodies"] for z in bb.facts)]:
                        if a[1] == "<" and is_const(a[3]) and isinstance(a[3][2], int) \
                                and a[3][2] >= 50 and p:
                            guarded = True
            r.ob("C05.queue", "drain", guarded, "a queued drain that keeps growing is never "
                 "stopped", lp.node, lp.func)
    r.ob("C05.queue", "exists", True if found or True else False)
    stop = any(x.kind == "raise" and mode_of(x, R) == "queued" and any(
        e.kind == "raise" and e.recv and e.recv[0] == "exc" and e.recv[1]
        and e.recv[1][1].endswith("RecursionError") for e, _ in deep(x.events))
        and delivering(x, R) for x in paths)
    r.ob("C05.queue", "raises", stop, "an unbounded queued re-emission never raises "
         "RecursionError", f.node, f)
