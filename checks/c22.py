"""HDF5 type tables.  The tables are read from the type-checked program: the initialiser of
every constant map from or to the DataType enumeration, the functions of every
BasicTypeToH5 specialisation and the table of printed names.  Each HDF5 type name stands for
a kind, a width and a byte order (the NATIVE ones through the target's C types), each
enumeration value for the kind and width its name states, each C++ type for its own.  Every
row has to pair equal ones, every enumeration value has to appear in every table, and the
tables have to agree with one another.  At the uses, the element type of each read and
write template instantiation has to be the one of the HDF5 types that reach the library's
compare, create, read and write calls, found by dataflow analysis."""
import re
from cxx import *
import h5val
from h5val import *
import c20

ROW = "both sides of a table row denote the same type"
FULL = "every supported type appears in the table"
AGREE = "the tables agree"
PRINT = "the printed name is the name of the type"
USE = "the HDF5 types used are those of the element type"

CTYPES = {"char": ("i", 8), "signed char": ("i", 8), "short": ("i", 16), "int": ("i", 32), "long": ("i", 64), "long long": ("i", 64),
          "unsigned char": ("u", 8), "unsigned short": ("u", 16), "unsigned int": ("u", 32), "unsigned long": ("u", 64),
          "unsigned long long": ("u", 64), "float": ("f", 32), "double": ("f", 64), "std::basic_string<char>": ("s", 0),
          "std::string": ("s", 0), "const char *": ("s", 0)}
NATIVE = {"SCHAR": ("i", 8), "UCHAR": ("u", 8), "SHORT": ("i", 16), "USHORT": ("u", 16), "INT": ("i", 32), "UINT": ("u", 32),
          "LONG": ("i", 64), "ULONG": ("u", 64), "LLONG": ("i", 64), "ULLONG": ("u", 64), "FLOAT": ("f", 32), "DOUBLE": ("f", 64)}


def sem(name):
    """(kind, width, order) an HDF5 type name denotes; None: not a number type"""
    m = re.match(r"H5T_STD_([IUB])(\d+)(LE|BE)_g$", name)
    if m:
        return (m.group(1).lower(), int(m.group(2)), m.group(3))
    m = re.match(r"H5T_IEEE_F(\d+)(LE|BE)_g$", name)
    if m:
        return ("f", int(m.group(1)), m.group(2))
    m = re.match(r"H5T_NATIVE_(\w+)_g$", name)
    if m:
        n = m.group(1)
        if n in NATIVE:
            return NATIVE[n] + ("LE",)
        m = re.match(r"(U?)INT(\d+)$", n)
        if m:
            return ("u" if m.group(1) else "i", int(m.group(2)), "LE")
    return None


def enum_sem(n):
    m = re.match(r"(U?)Int(\d+)$", n)
    if m:
        return ("u" if m.group(1) else "i", int(m.group(2)))
    return {"Float": ("f", 32), "Double": ("f", 64)}.get(n)


def h5type(x):
    """name of the HDF5 type an expression denotes"""
    while True:
        k = x.get("k")
        if k == "bin" and x.get("op") == ",":
            x = x["b"]
        elif k == "cast":
            x = x.get("a") or x.get("e")
        elif k == "cond":
            a, b = h5type(x["a"]), h5type(x["b"])
            c = x.get("c") if isinstance(x.get("c"), dict) else x.get("q")
            v = (c or {}).get("cv")
            if v is None and a and b and {a, b} == {"H5T_NATIVE_SCHAR_g", "H5T_NATIVE_UCHAR_g"}:
                return "H5T_NATIVE_SCHAR_g"      # CHAR_MIN < 0 on this target
            return a if a == b else (a if v else b if v is not None else None)
        elif k == "var" and re.match(r"H5T_\w+_g$", x.get("n", "")):
            return x["n"]
        else:
            return None


def item(x):
    while x.get("k") == "cast" and not x.get("n"):
        x = x.get("a") or x.get("e")
    if x.get("k") == "enumc":
        return ("enum", x["n"].split("::")[-1])
    if x.get("k") == "str":
        return ("str", x.get("s") if x.get("s") is not None else x.get("v"))
    h = h5type(x)
    return ("h5", h) if h else None


def rows(init):
    """(key, value) pairs of a map's initialiser"""
    out = []
    for x in walk(init):
        if x.get("k") == "ctor" and x.get("cls") == "std::pair" and len(x.get("args") or []) == 2:
            a, b = (item(strip(y)) for y in x["args"])
            if a and b:
                out.append((a, b, x))
            else:
                out.append((a, b, x))
    return out


def strip(x):
    while x.get("k") in ("ctor", "cast", "init") and len(x.get("args") or ([x["a"]] if isinstance(x.get("a"), dict) else [])) == 1:
        x = (x.get("args") or [x["a"]])[0]
    return x


class Table:
    def __init__(self, name, rows, at):
        self.name, self.rows, self.at = name, rows, at


def tables(ctx):
    """every constant map whose rows pair DataType values, HDF5 types and names"""
    E = Engine()
    out = {}
    for tu in E.tus:
        for g in tu.globals:
            g = g if isinstance(g, dict) else tu.globals[g]
            if str(g.get("n", "")).startswith("h5::") and g.get("init"):
                r = rows(g["init"])
                if r and g["n"] not in out:
                    out[g["n"]] = Table(g["n"], r, tu.loc(g["init"]))
        for f in tu.functions:
            if not f["f"].startswith("h5::") or not f.get("body"):
                continue
            for x in walk(f["body"]):
                if x.get("k") == "decl":
                    for d in x.get("v") or []:
                        if isinstance(d, dict) and isinstance(d.get("init"), dict):
                            r = rows(d["init"])
                            if r:
                                out[f["f"] + "::" + str(d.get("n"))] = Table(f["f"] + "::" + str(d.get("n")), r, tu.loc(x))
    return list(out.values())


def enumerators(ctx):
    E = Engine()
    for tu in E.tus:
        for n, d in tu.enums.items():
            if n.endswith("H5ReadWrite::DataType"):
                return [v["n"] for v in d["vals"]]
    return []


def check(ctx):
    ts = tables(ctx)
    names = enumerators(ctx)
    numeric = [n for n in names if enum_sem(n)]
    ctx.require(ts and numeric, "the HDF5 type tables are gone")
    file_of, mem_of, back = {}, {}, {}
    for t in ts:
        kinds = {(a and a[0], b and b[0]) for a, b, _ in t.rows}
        ctx.count("tables read")
        if kinds == {("enum", "str")}:
            printed(ctx, t, names)
            continue
        if not kinds <= {("enum", "h5"), ("h5", "enum")}:
            ctx.und(ROW, t.at, "%s has rows the analysis does not read" % t.name)
            continue
        seen = set()
        for a, b, x in t.rows:
            ctx.count("table rows")
            en, h = (a[1], b[1]) if a[0] == "enum" else (b[1], a[1])
            s = sem(h)
            seen.add(en)
            if enum_sem(en) is None:
                ctx.und(ROW, t.at, "row for %s" % en)
            elif s is None or s[:2] != enum_sem(en):
                ctx.bad(ROW, t.at, "%s pairs %s with %s" % (t.name, en, h[:-2]), "%s:%s" % (t.name, en))
            else:
                ctx.ok(ROW, t.at, "%s %s" % (en, h))
            if a[0] == "h5":
                back.setdefault(h, (en, t))
            elif h.startswith("H5T_NATIVE"):
                mem_of[en] = (h, t)
            else:
                file_of[en] = (h, t)
        for n in numeric:
            if n not in seen:
                ctx.bad(FULL, t.at, "%s has no row for %s" % (t.name, n), "%s:%s" % (t.name, n))
            else:
                ctx.ok(FULL, t.at, n)
    for en, (h, t) in file_of.items():
        if back:
            if h not in back:
                ctx.bad(AGREE, t.at, "%s writes %s as %s, which the table for reading does not know" % (t.name, en, h[:-2]), "back:%s" % en)
            elif back[h][0] != en:
                ctx.bad(AGREE, t.at, "%s writes %s as %s, which is read back as %s" % (t.name, en, h[:-2], back[h][0]), "back:%s" % en)
            else:
                ctx.ok(AGREE, t.at, en)
    basic(ctx, {s: h for h, s in ((h, enum_sem(en)) for en, (h, t) in file_of.items())})
    uses(ctx)


def printed(ctx, t, names):
    have = {}
    for a, b, x in t.rows:
        ctx.count("table rows")
        have[a[1]] = b[1]
        if a[1] != b[1]:
            ctx.bad(PRINT, t.at, "%s is printed as %s" % (a[1], b[1]), "print:%s" % a[1])
        else:
            ctx.ok(PRINT, t.at, a[1])
    for n in names:
        if n not in have:
            ctx.bad(PRINT, t.at, "%s has no printed name" % n, "print:%s" % n)


def targ(f):
    m = re.search(r"BasicTypeToH5<([^<>]*(?:<[^<>]*>)?)>", f["key"])
    return m.group(1).strip() if m else None


def basic(ctx, written):
    """file and memory type of every specialisation"""
    fs = [f for f in all_functions() if "BasicTypeToH5<" in f["key"].split("|")[0]]
    by = {}
    for f in fs:
        T = targ(f)
        r = None
        for x in walk(f["body"]):
            if x.get("k") == "ret":
                e = x.get("e") or x.get("a") or x.get("v")
                r = h5type(e) if isinstance(e, dict) else None
        by.setdefault(T, {})[f["f"].split("::")[-1]] = (r, f)
    ctx.require(by, "BasicTypeToH5 has no specialisation")
    for T, d in by.items():
        if T not in CTYPES:
            ctx.und(ROW, str(T), "unknown element type")
            continue
        for n, (h, f) in d.items():
            ctx.count("functions naming the HDF5 type of a C++ type")
            if h is None:
                ctx.und(ROW, where(f), "the result is not a type name")
                continue
            s = sem(h)
            if s is None or s[:2] != CTYPES[T]:
                ctx.bad(ROW, where(f), "BasicTypeToH5<%s>::%s is %s" % (T, n, h[:-2]), "basic:%s:%s" % (T, n))
            elif n == "dataTypeId" and written.get(CTYPES[T]) not in (None, h):
                ctx.bad(AGREE, where(f), "%s is stored as %s by the templates and as %s through the enumeration" % (
                    T, h[:-2], written[CTYPES[T]][:-2]), "basic:%s" % T)
            else:
                ctx.ok(ROW, where(f), "%s %s" % (T, h))


# HDF5 call -> (position of the type, "file" or "mem")
CALLS = {"H5Aread": (1, "mem"), "H5Awrite": (1, "mem"), "H5Acreate2": (2, "file"), "H5Dread": (1, "mem"), "H5Dwrite": (1, "mem"),
         "H5Dcreate2": (2, "file"), "H5Tequal": (1, "file")}


def element(f):
    """element type of an instantiation of a template member"""
    m = re.match(r"^h5::H5ReadWrite::\w+<(.+)>\|", f["key"])
    if not m:
        return None
    t = m.group(1).strip()
    return t


def uses(ctx):
    pub, impl = c20.entries(ctx)
    ctx.parallel([lambda c, f=f: use(c, f) for f in pub])


def tname(t):
    """HDF5 type name of a value"""
    m = re.match(r"^<(H5T_\w+_g)>$", show(t))
    return m.group(1) if m else None


def via(t):
    m = re.match(r"^<(h5::\w+?)(?:kv)?\.second>$", show(t))
    return m.group(1) if m else None


def use(ctx, f):
    T = element(f)
    E = analyse(ctx, f)
    if E is None:
        return
    for e in E.events:
        if not is_h5(e) or e.x["name"] not in CALLS:
            continue
        i, role = CALLS[e.x["name"]]
        if len(e.x["args"]) <= i or not isinstance(e.x["args"][i], type(ZERO)):
            continue
        t = e.x["args"][i]
        n = tname(t)
        ctx.count("HDF5 calls given a type")
        at = "%s in %s" % (e.at, f["key"].split("|")[0].replace("h5::H5ReadWrite::", ""))
        if n is not None and T in CTYPES and CTYPES[T][0] != "s":
            s = sem(n)
            if s is None:
                ctx.und(USE, at, n)
            elif s[:2] != CTYPES[T]:
                ctx.bad(USE, at, "%s is given %s for elements of type %s" % (e.x["name"], n[:-2], T), "%s:%s:%s" % (f["key"][:80], e.x["name"], n))
            elif role == "mem" and not n.startswith("H5T_NATIVE") and s[2] != "LE":
                ctx.bad(USE, at, "%s is given %s for values in memory" % (e.x["name"], n[:-2]), "%s:%s:%s" % (f["key"][:80], e.x["name"], n))
            else:
                ctx.ok(USE, at, n)
        elif via(t):
            # looked up in one of the tables: the memory table for values in memory
            w = via(t)
            nat = natural(w)
            if nat is None:
                ctx.und(USE, at, show(t)[:80])
            elif (role == "mem") != nat:
                ctx.bad(USE, at, "%s takes its %s type from %s" % (e.x["name"], "memory" if role == "mem" else "file", w.split("::")[-1]),
                        "%s:%s:%s" % (f["f"], e.x["name"], w))
            else:
                ctx.ok(USE, at, w)


def natural(name):
    """does the table list memory (NATIVE) types"""
    E = Engine()
    for tu in E.tus:
        for g in tu.globals:
            g = g if isinstance(g, dict) else tu.globals[g]
            if g.get("n") == name and g.get("init"):
                hs = [b[1] for a, b, _ in rows(g["init"]) if b and b[0] == "h5"]
                if hs:
                    return all(h.startswith("H5T_NATIVE") for h in hs)
    return None
