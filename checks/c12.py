"""Every place in the native code that takes the address of a NumPy array's elements (data, the
pointer of a buffer request) is found in the syntax tree.  The array's static type has to carry the
C-order flag, which makes pybind11 hand over a C-contiguous array of the element type (copying
if need be), and the pointer has to be read as that element type.  Conversions that skip this
check (reinterpret_borrow / reinterpret_steal to an array type) count as unchecked.  Code that
goes by the array's strides is left undecided."""
import re
from conc import *
from engine import ty, recname

R1 = "raw pointer only from C-contiguous array"
R2 = "pointer read as the array's element type"
R3 = "array type is established by a checked conversion"

C_STYLE = 1


def check(ctx):
    E = Engine()
    n = 0
    seen = set()
    for tu in E.tus:
        fns = []
        for f in tu.functions:
            if f.get("body"):
                fns.append(f)
                fns += [m["fn"] for m in walk([f["body"]]) if m.get("k") == "lambda" and isinstance(m.get("fn"), dict)]
        for f in fns:
            n += one(ctx, E, tu, f, seen)
    for tu in E.tus:
        for s in tu.globals.values():
            pass
    ctx.require(n, "no use of array data found")


def array_type(tu, e):
    """(element type, flags) of an expression of pybind11 array type"""
    t = ty(tu, e.get("t")) if isinstance(e, dict) and isinstance(e.get("t"), int) else None
    if t is None:
        return None
    t = t.base
    if t.k == "ptr":
        t = t.to.base
    s = t.s.replace("const ", "")
    m = re.match(r"pybind11::array_t<(.*?)(?:, (\d+))?>$", s)
    if m:
        return m.group(1), int(m.group(2) or 16)
    if s in ("pybind11::array", "pybind11::buffer"):
        return None, 0
    return None


def unwrap(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "defarg") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def same_object(a, b):
    a, b = unwrap(a), unwrap(b)
    if not isinstance(a, dict) or not isinstance(b, dict) or a.get("k") != b.get("k"):
        return False
    if a["k"] == "var":
        return a.get("id") == b.get("id")
    if a["k"] == "mem":
        return a.get("id") == b.get("id")
    return a["k"] == "this"


def one(ctx, E, tu, f, seen):
    body = f["body"]
    nodes = list(walk([body])) + list(walk(f.get("inits") or []))
    n = 0
    casts = {}
    for c in nodes:
        if c.get("k") == "cast" and isinstance(c.get("e"), dict):
            x = c["e"]
            while isinstance(x, dict) and x.get("k") == "cast":
                x = x["e"]
            if isinstance(x, dict):
                casts.setdefault(id(x), []).append(c)
    strided = {id(unwrap(c.get("obj"))) for c in nodes if c.get("k") == "call" and str(c.get("f", "")).split("::")[-1] in ("strides",)}
    sobjs = [c.get("obj") for c in nodes if c.get("k") == "call" and str(c.get("f", "")).split("::")[-1] == "strides"]
    infos = {}     # variable id -> array type of the request
    for c in nodes:
        if c.get("k") == "decl":
            for v in c.get("v") or ():
                for m in walk([v.get("init")] if isinstance(v.get("init"), dict) else []):
                    if m.get("k") == "call" and str(m.get("f", "")).endswith("::request") and isinstance(m.get("obj"), dict):
                        infos[v.get("id")] = (array_type(tu, m["obj"]), m)
    for c in nodes:
        name = str(c.get("f", ""))
        last = name.split("::")[-1].split("<")[0]
        if c.get("k") == "call" and name.startswith("pybind11::") and last in ("data", "mutable_data") and isinstance(c.get("obj"), dict):
            at = array_type(tu, c["obj"])
            if at is None:
                continue
            n += 1
            key = (tu.loc(c), at)
            if key in seen:
                continue
            seen.add(key)
            decide(ctx, tu, f, c, at, any(same_object(c["obj"], o) for o in sobjs), real_args(c))
            elem(ctx, tu, f, c, at, casts.get(id(c), ()))
        elif c.get("k") == "mem" and c.get("n") == "ptr" and "buffer_info" in str(c.get("cls")):
            b = unwrap(c.get("b"))
            if isinstance(b, dict) and b.get("k") == "un":
                b = unwrap(b.get("e"))
            at, req = None, None
            if isinstance(b, dict) and b.get("k") == "var":
                at, req = infos.get(b.get("id"), (None, None))
            elif isinstance(b, dict) and b.get("k") == "call" and str(b.get("f", "")).endswith("::request"):
                at, req = array_type(tu, b.get("obj")), b
            if at is None:
                continue
            n += 1
            key = (tu.loc(c), at)
            if key in seen:
                continue
            seen.add(key)
            st = any(m.get("k") == "mem" and m.get("n") == "strides" and "buffer_info" in str(m.get("cls")) for m in nodes)
            decide(ctx, tu, f, c, at, st, False)
            elem(ctx, tu, f, c, at, casts.get(id(c), ()))
        elif c.get("k") == "call" and last in ("reinterpret_borrow", "reinterpret_steal") and name.startswith("pybind11::"):
            at = array_type(tu, c)
            if at is not None and at[1] & C_STYLE:
                ctx.bad(R3, tu.loc(c), "%s takes any object for a C-contiguous array of %s" % (last, at[0]), key="unchecked:" + str(f["f"]))
        elif c.get("k") == "ctor" and "pybind11::array_t" in str(c.get("cls")) and any("borrowed_t" in tu.ty(a["t"])["s"] or "stolen_t" in tu.ty(a["t"])["s"] for a in c.get("args") or () if isinstance(a, dict) and isinstance(a.get("t"), int)):
            at = array_type(tu, c)
            if at is not None and at[1] & C_STYLE:
                ctx.bad(R3, tu.loc(c), "borrowed object taken for a C-contiguous array of %s" % at[0], key="unchecked:" + str(f["f"]))
    return n


def real_args(c):
    return [a for a in c.get("args") or () if isinstance(a, dict) and a.get("k") != "defarg"]


def decide(ctx, tu, f, c, at, strided, idx):
    where = "%s, array of %s" % (str(f["f"]).split("(")[0].split("::")[-1], at[0] or "unchecked type")
    ctx.count("places taking array data")
    if at[1] & C_STYLE:
        ctx.ok(R1, tu.loc(c), where)
    elif strided or idx:
        ctx.und(R1, tu.loc(c), where + ": goes by strides")
    else:
        ctx.bad(R1, tu.loc(c), where + ": accepts any memory layout", key="layout:%s" % f["f"])


def elem(ctx, tu, f, c, at, casts):
    for k in casts:
        t = ty(tu, k.get("t"))
        if t is None or t.k != "ptr" or at[0] is None:
            continue
        got = t.to.s.replace("const ", "")
        if got in ("void", "unsigned char", "char", "std::byte"):
            continue
        if got == at[0]:
            ctx.ok(R2, tu.loc(k), "%s read as %s" % (at[0], got))
        else:
            ctx.bad(R2, tu.loc(k), "array of %s is read as %s" % (at[0], got), key="elem:%s" % f["f"])
