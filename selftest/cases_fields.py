"""Cases for the field iterator (C33) and the texts of errors (C04)."""
D = "_dataclass_utils.py"
X = "_exceptions.py"
S = "_signal.py"
CASES = []


def bad(name, f, pid, *edits):
    CASES.append((f"{pid}-{name}", f, list(edits), {pid}))


def ok(name, f, *edits):
    CASES.append((f"fields-{name}", f, list(edits), set()))


DC = """    if (dclass_fields := getattr(cls, "__dataclass_fields__", None)) is not None:
        for d_field in dclass_fields.values():
            if d_field._field_type is dataclasses._FIELD:  # type: ignore [attr-defined]
                yield d_field.name, d_field.type
        return
"""
PYD = """            for field_name, p_field in cls.model_fields.items():
                if not p_field.frozen or not exclude_frozen:
                    yield field_name, p_field.annotation
"""
AT = """    if (attrs_fields := getattr(cls, "__attrs_attrs__", None)) is not None:
        for a_field in attrs_fields:
            yield a_field.name, a_field.type
        return
"""
MS = """        annotations: dict[str, Any] = {}
        for base in reversed(cls.__mro__):  # fields may be inherited
            annotations.update(getattr(base, "__annotations__", {}))
        for m_field in cls.__struct_fields__:
            yield m_field, annotations.get(m_field, None)
"""
bad("classvars", D, "C33", (DC, DC.replace("            if d_field._field_type is dataclasses._FIELD:  # type: ignore [attr-defined]\n                yield", "            yield")))
bad("only-classvars-out", D, "C33", ("is dataclasses._FIELD:", "is not dataclasses._FIELD_CLASSVAR:"))
bad("frozen-in", D, "C33", (PYD, PYD.replace("not p_field.frozen or not exclude_frozen", "not p_field.frozen or exclude_frozen")))
bad("frozen-only", D, "C33", (PYD, PYD.replace("if not p_field.frozen or not exclude_frozen", "if not p_field.frozen")))
bad("alias-for-name", D, "C33", (AT, AT.replace("a_field.name,", "a_field.alias,")))
bad("no-type", D, "C33", (AT, AT.replace("a_field.type", "None")))
bad("default-for-type", D, "C33", (PYD, PYD.replace("p_field.annotation", "type(p_field.default)")))
bad("first-only", D, "C33", (AT, AT.replace("            yield a_field.name, a_field.type\n", "            yield a_field.name, a_field.type\n            return\n")))
bad("attrs-missed", D, "C33", (AT, ""))
bad("own-annotations", D, "C33", (MS, """        for m_field in cls.__struct_fields__:
            type_ = cls.__annotations__.get(m_field, None)
            yield m_field, type_
"""))
bad("base-first", D, "C33", ("in reversed(cls.__mro__)", "in cls.__mro__"))
bad("private-skipped", D, "C33", (AT, AT.replace("            yield", "            if a_field.name.startswith('_'):\n                continue\n            yield")))
bad("dataclass-twice", D, "C33", (DC, DC.replace("        return\n", "        yield from ((f.name, f.type) for f in dclass_fields.values() if f._field_type is dataclasses._FIELD)\n        return\n")))
ok("dataclass-guard", D, (DC, """    dclass_fields = getattr(cls, "__dataclass_fields__", None)
    if dclass_fields is not None:
        for name, d_field in dclass_fields.items():
            if d_field._field_type is not dataclasses._FIELD:
                continue
            yield name, d_field.type
        return
"""))
ok("dataclass-api", D, (DC, """    if hasattr(cls, "__dataclass_fields__"):
        for d_field in dataclasses.fields(cls):
            yield d_field.name, d_field.type
        return
"""))
ok("dataclass-genexp", D, (DC, """    if (dclass_fields := getattr(cls, "__dataclass_fields__", None)) is not None:
        yield from (
            (f.name, f.type)
            for f in dclass_fields.values()
            if f._field_type is dataclasses._FIELD
        )
        return
"""))
ok("helper-generators", D, (DC, """    if (dclass_fields := getattr(cls, "__dataclass_fields__", None)) is not None:
        yield from _iter_dataclass_fields(dclass_fields)
        return
"""), ("@overload\ndef is_dataclass(obj: type)", '''def _iter_dataclass_fields(fields: Any) -> Any:
    for d_field in fields.values():
        if d_field._field_type is dataclasses._FIELD:
            yield d_field.name, d_field.type


@overload
def is_dataclass(obj: type)'''))
ok("elif-chain", D, (AT, """    attrs_fields = getattr(cls, "__attrs_attrs__", None)
    if attrs_fields is not None:
        yield from ((a.name, a.type) for a in attrs_fields)
        return
"""))
ok("pydantic-skip", D, (PYD, """            for field_name, p_field in cls.model_fields.items():
                if exclude_frozen and p_field.frozen:
                    continue
                yield field_name, p_field.annotation
"""))
ok("msgspec-setdefault", D, (MS, """        annotations: dict[str, Any] = {}
        for base in cls.__mro__:
            for key, type_ in getattr(base, "__annotations__", {}).items():
                annotations.setdefault(key, type_)
        for m_field in cls.__struct_fields__:
            yield m_field, annotations.get(m_field)
"""))
ok("msgspec-helper", D, (MS, """        annotations = _all_annotations(cls)
        for m_field in cls.__struct_fields__:
            yield m_field, annotations.get(m_field)
"""), ("@overload\ndef is_dataclass(obj: type)", '''def _all_annotations(cls: type) -> dict[str, Any]:
    out: dict[str, Any] = {}
    for base in cls.__mro__[::-1]:
        out.update(getattr(base, "__annotations__", {}))
    return out


@overload
def is_dataclass(obj: type)'''))
ok("attrs-before-pydantic", D, (AT, ""), ("    if is_pydantic_model(cls):\n        if hasattr", AT + "\n    if is_pydantic_model(cls):\n        if hasattr"))

# --- texts of errors
bad("text-of-exception", X, "C04", ("{_safe_str(exc)}", "{exc}"))
bad("text-in-variable", X, "C04", ('    line = f"', '    text = str(exc)\n    line = f"'))
bad("text-of-instance", X, "C04", ("sig_name = f\"{mod}{inst_class.__qualname__}.{signal.name}\"", "sig_name = f\"{instance}.{signal.name}\""))
bad("text-narrow", X, "C04", ("        return str(obj)\n    except Exception:", "        return str(obj)\n    except TypeError:"))
bad("text-of-args", S, "C04", ("{_safe_str(args)}", "{args!r}"))
bad("text-percent", X, "C04", ("    msg += line +", "    msg += '%s' % (exc,)\n    msg += line +"))
bad("text-locals", X, "C04", ("""        with suppress(Exception):
            if not (inner""", """        with suppress(IndexError):
            if not (inner"""))
ok("text-suppress", X, ("""    try:
        return str(obj)
    except Exception:
        return f"<unprintable {type(obj).__name__} object>"
""", """    with suppress(Exception):
        return str(obj)
    return f"<unprintable {type(obj).__name__} object>"
"""))
ok("text-local", X, ('    line = f"\\n\\n  {exc.__class__.__name__}: {_safe_str(exc)}"\n', '    kind, text = type(exc).__name__, _safe_str(exc)\n    line = f"\\n\\n  {kind}: {text}"\n'))
ok("text-signal-name-helper", X, ("        # grab the signal name or repr\n", "        # grab the signal name\n"))
