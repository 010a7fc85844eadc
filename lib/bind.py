"""Functions registered with pybind11 (def, def_static, def_property..., def_buffer, init) and
whether their call guard gives up the interpreter lock."""
from cxx import *

KINDS = ("def", "def_static", "def_buffer", "def_property", "def_property_readonly", "def_property_static")


class Binding:
    __slots__ = ("name", "cls", "fn", "released", "at", "tu", "kind")

    def __repr__(self):
        return "%s%s" % (self.cls + "." if self.cls else "", self.name)


def bindings(E):
    out, seen = [], set()
    for tu in E.tus:
        for f in tu.functions:
            if not f.get("body"):
                continue
            for c in walk(f["body"]):
                if c.get("k") != "call" or not str(c.get("f", "")).startswith("pybind11::"):
                    continue
                kind = str(c["f"]).split("::")[-1].split("<")[0]
                if kind not in KINDS:
                    continue
                args = c.get("args") or []
                names = [m.get("v") for m in walk(args[:1]) if m.get("k") == "str"]
                cls = tu.ty(c["obj"]["t"])["s"] if c.get("obj") is not None else ""
                cls = "" if "module_" in cls else cls
                released = any("gil_scoped_release" in tu.ty(a["t"])["s"] for a in args if isinstance(a, dict) and isinstance(a.get("t"), int))
                for a in (args if kind == "def_buffer" else args[1:]):
                    for fn in targets(E, tu, a):
                        b = Binding()
                        b.name, b.cls, b.fn, b.released, b.at, b.tu, b.kind = (names or [kind])[0], cls, fn, released, tu.loc(c), tu, kind
                        key = (b.at, id(fn))
                        if key not in seen:
                            seen.add(key)
                            out.append(b)
    return out


def targets(E, tu, a):
    out = []
    for m in walk([a]):
        if m.get("k") == "lambda" and isinstance(m.get("fn"), dict):
            m["fn"]["_tu"] = tu
            out.append(m["fn"])
        elif m.get("k") in ("fref", "mref") and m.get("key"):
            f = tu.by_key.get(m["key"]) or E.keymap.get(m["key"])
            if f is None or not f.get("body"):
                f = E.keymap.get(m["key"]) or f
            if f is not None:
                out.append(f)
    return out
