"""C33: the fields of every dataclass flavour are found."""

from __future__ import annotations

from ..q import deep, place
from ..terms import NONE, show, walk
from . import prop

#: where the fields of a class of each flavour come from: attributes of the class, and functions
SOURCES = {
    "dataclass": ({"__dataclass_fields__"}, {"dataclasses.fields"}),
    "pydantic": ({"model_fields", "__pydantic_fields__", "__fields__"}, set()),
    "attrs": ({"__attrs_attrs__"}, {"attr.fields", "attrs.fields"}),
    "msgspec": ({"__struct_fields__"}, {"msgspec.structs.fields"}),
}


def flavour(t, cls):
    """The flavour whose fields a term speaks of, and where they are taken from."""
    for u in walk(t):
        for name, (attrs, fns) in SOURCES.items():
            if u[0] == "attr" and u[1] == cls and u[2] in attrs:
                return name, u[2]
            if u[0] == "op" and u[1] == "getattr" and u[2] == cls and u[3][0] == "const" \
                    and u[3][2] in attrs:
                return name, u[3][2]
            s = show(u)
            if u[0] in ("call", "ret", "op", "new") and any(s.startswith(f.split(".")[-1] + "(" + show(cls)) or
                                                            s.startswith(f + "(" + show(cls)) for f in fns):
                return name, "fields"
    return None, None


def tested(x, cls):
    """What the path knows: flavour -> whether the class is of it."""
    out = {}

    def put(k, v):
        # (a marker attribute that is None counts as absent)
        if v is False or k not in out:
            out[k] = v
    for a, p, _ in x.facts:
        s = show(a)
        if a[1] == "hasattr" or a[1] == "is" and a[3] == NONE or a[1] in ("truth", "truthv"):
            for k, (attrs, _f) in SOURCES.items():
                marks = attrs - {"model_fields", "__fields__", "__pydantic_fields__", "__struct_fields__"}
                if any(m in s for m in marks):
                    put(k, p if a[1] != "is" else not p)
        if a[1] in ("issubclass", "truth", "truthv") and "BaseModel" in s:
            put("pydantic", p)
        elif a[1] in ("issubclass", "truth", "truthv") and "Struct" in s:
            put("msgspec", p)
        elif a[1] in ("truth", "truthv") and ".has(" in s:
            put("attrs", p)
        elif a[1] == "is" and a[3] == NONE and p and "get('" in s:
            for k, lib in (("pydantic", "pydantic"), ("msgspec", "msgspec"), ("attrs", "attr")):
                if f"'{lib}'" in s or f"'{lib}s'" in s:
                    put(k, False)
    return out


@prop("C33", 20)
def c33(r):
    r.rule("C33.flavours", "classes of each flavour (dataclass, pydantic, attrs, msgspec) have their fields "
                           "listed, other classes none")
    r.rule("C33.each", "each field is listed once, with its own name and type")
    r.rule("C33.dataclass", "class variables and InitVars of dataclasses are not fields")
    r.rule("C33.frozen", "frozen fields of pydantic models are left out exactly when that is asked for")
    r.rule("C33.inherited", "the type of a msgspec field is found when the field is inherited, the most "
                            "derived declaration first")
    f = r.p.find_func("iter_fields")
    args = [a.arg for a in f.node.args.args]
    cls, excl = ("param", args[0]), ("param", args[1]) if len(args) > 1 else None
    n = dict.fromkeys(SOURCES, 0)
    for x in r.run(f, None):
        if any(a[1] == "isinstance" and a[2] == cls and not p for a, p, _ in x.facts):
            continue            # (not a class)
        if x.kind == "raise":
            continue
        known = tested(x, cls)
        top = []
        for e in x.events:
            if e.kind == "loop":
                ys = [(b, [d for d, _ in deep(b.events) if d.kind == "yield"]) for b in e.extra["bodies"]]
                if any(y for _, y in ys):
                    top.append((e, ys))
            elif e.kind == "yield":
                top.append((e, None))
        yes = [k for k, v in known.items() if v]
        if not top:
            left = [k for k in SOURCES if known.get(k) is not False]
            r.ob("C33.flavours", "none", not left, f"no fields are listed for a class although it may be "
                 f"of flavour {', '.join(left)}", f.node, f)
            continue
        e, ys = top[0]
        r.ob("C33.flavours", "one", len(top) == 1, "the fields are listed twice", e.node, f)
        if ys is None:
            r.note("fields are not listed by a loop")
            continue
        k, src = next((flavour(d.args[0], cls) for _, y in ys for d in y), (None, None))
        if k is None:
            k, src = flavour(e.extra.get("iter") or e.recv or NONE, cls)
        if not r.ob("C33.flavours", "source", k is not None, "the fields are listed from "
                    f"{show(ys[0][1][0].args[0]) if ys[0][1] else '?'}", e.node, f):
            continue
        r.ob("C33.flavours", k, not yes or k in yes, f"the fields of a {' and '.join(yes)} class are "
             f"looked for as those of a {k} class", e.node, f)
        n[k] += 1
        for b, y in ys:
            body(r, x, f, e, b, y, k, src, excl)
    for k, v in n.items():
        r.ob("C33.flavours", k + ":listed", v, f"the fields of {k} classes are never listed", f.node, f)


def body(r, x, f, loop, b, y, k, src, excl):
    skip = None
    if k == "dataclass" and src != "fields":
        real = [p for a, p, _ in b.facts if a[1] in ("is", "==") and any(
            place(t)[0] == "attr" and place(t)[2] == "_field_type" for t in a[2:4])
            and any(show(t).endswith("_FIELD") and not show(t).endswith("._field_type") for t in a[2:4])]
        skip = not real[0] if real else None
        r.ob("C33.dataclass", "kind", real, "the fields of a dataclass are listed without looking at what "
             "kind they are", loop.node, f)
    elif k == "pydantic":
        froz = [p if "frozen" in show(a) else not p for a, p, _ in b.facts if a[1] in ("truth", "truthv") and (
            "frozen" in show(a[2]) and a[2] != excl or "allow_mutation" in show(a))]
        want = [p for a, p, _ in b.facts if a[1] in ("truth", "truthv") and a[2] == excl]
        want = want or [p for a, p, _ in x.facts if a[1] in ("truth", "truthv") and a[2] == excl]
        if froz and not froz[0] or want and not want[0]:
            skip = False
        elif froz and want:
            skip = True
        r.ob("C33.frozen", src, skip is not None, "a field is listed or left out without looking at whether it is "
             "frozen and whether those are wanted", loop.node, f)
    else:
        skip = False
    if skip is None:
        return
    rule = {"dataclass": "C33.dataclass", "pydantic": "C33.frozen"}.get(k, "C33.each")
    if skip:
        r.ob(rule, f"{src}:out", not y, "a field that is to be left out is listed", loop.node, f)
        return
    if not r.ob(rule if not y else "C33.each", f"{src}:in", len(y) == 1, "a field is listed "
                f"{len(y)} times", loop.node, f):
        return
    if b.kind not in ("next", "continue"):
        r.ob("C33.each", f"{src}:all", False, "the list ends after this field", loop.node, f)
    v = y[0].args[0]
    if v[0] != "tuple" or len(v[1]) != 2:
        r.ob("C33.each", f"{src}:pair", False, f"listed as {show(v)}", loop.node, f)
        return
    name, typ = v[1]
    elem = k == "msgspec" and src != "fields"
    nm = place(name)
    ok = nm[0] == "attr" and nm[2] == "name" if not elem else nm[0] != "attr" and nm[0] != "const"
    base = nm[1] if nm[0] == "attr" else None
    ok = ok or not elem and show(nm).startswith("key-of(")
    r.ob("C33.each", f"{src}:name", ok, f"a field is named {show(name)}", loop.node, f)
    if elem:
        own(r, x, f, b, loop, nm, typ)
        return
    tp = place(typ)
    want = {"model_fields": {"annotation"}, "__pydantic_fields__": {"annotation"},
            "__fields__": {"outer_type_", "type_"}}.get(src, {"type"})
    r.ob("C33.each", f"{src}:type", tp[0] == "attr" and tp[2] in want and (base is None or tp[1] == base),
         f"the type of field {show(name)} is taken to be {show(typ)}", loop.node, f)


def own(r, x, f, b, loop, nm, typ):
    """The type of an msgspec field: looked up by its name in what all bases declare."""
    if typ == NONE:
        absent = any(a[1] == "in" and not p and place(a[2]) == nm for a, p, _ in (*b.facts, *x.facts))
        r.ob("C33.each", "msgspec:type", absent, "the type of a field is not looked up", loop.node, f)
        return
    keyed = any(place(u) == nm for u in walk(typ))
    if not r.ob("C33.each", "msgspec:type", keyed, f"the type of field {show(nm)} is taken to be {show(typ)}",
                loop.node, f):
        return
    from_own = any(u[0] == "attr" and u[2] == "__annotations__" and u[1] == ("param", f.node.args.args[0].arg)
                   for u in walk(typ)) and "__mro__" not in show(typ)
    r.ob("C33.inherited", "msgspec", not from_own, "the type of an inherited field is not found: only the "
         "annotations of the class itself are looked at", loop.node, f)
    for e, _ in deep(x.events):
        if e.kind == "loop" and "__mro__" in show(e.extra.get("iter") or NONE):
            up = any(d.kind == "setitem" or d.kind == "call" and d.name == "update"
                     for bb in e.extra["bodies"] for d, _ in deep(bb.events))
            if up:
                r.ob("C33.inherited", "order", "reversed" in show(e.extra["iter"]) or "[" in show(e.extra["iter"]),
                     "the declaration of a base class takes precedence", e.node, f)
