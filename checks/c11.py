"""Buffers exported to Python.  Every function registered with def_buffer (lambda, function
or helper it calls) is analysed; the arguments of the buffer_info it builds are closed forms
of the object's fields.  They have to describe the row-major storage of that object: data
pointer at the first element, element size and format of the element type the object's
storage is declared with, shape (…, height, width) with the leading axis of that object
(radii, images in the block) and strides that are the row-major ones, for all sizes.  The
constructors that allocate such an object have to request as many elements as the exported
shape of the fields they set has.  Arrays made from vectors have to take size and address
from the same vector; the reader of Python data sets has to take width and height of its blocks from
the last two axes of the array, in that order."""
import re
from cxx import *

ASSUMPTIONS = ["shape products fit in 64 bits"]
R1 = "exported buffer describes the row-major storage"
R2 = "allocation covers the exported shape"
R3 = "array made from a vector has that vector's size and address"
R4 = "frame size of a block is that of the array it holds"
FMT = {"unsigned char": "B", "signed char": "b", "char": "c", "unsigned short": "H", "short": "h", "unsigned int": "I", "int": "i",
       "unsigned long": "Q", "long": "q", "float": "f", "double": "d", "bool": "?", "unsigned long long": "Q", "long long": "q"}
SIZE = {"unsigned char": 1, "signed char": 1, "char": 1, "unsigned short": 2, "short": 2, "unsigned int": 4, "int": 4,
        "unsigned long": 8, "long": 8, "float": 4, "double": 8, "bool": 1, "unsigned long long": 8, "long long": 8}


def exporters():
    """(record type, function, site) of every def_buffer registration"""
    E = Engine()
    out = []
    for tu in E.tus:
        for f in tu.functions:
            if not f.get("body"):
                continue
            for n in walk(f["body"]):
                if n.get("k") != "call" or not str(n.get("f", "")).endswith("::def_buffer"):
                    continue
                fn = None
                for m in walk(n["args"]):
                    if m.get("k") == "lambda" and isinstance(m.get("fn"), dict):
                        fn = m["fn"]
                        fn["_tu"] = tu
                    elif m.get("k") == "fref" and m.get("key") in tu.by_key:
                        fn = fn or tu.by_key[m["key"]]
                rec = tu.ty(n["obj"]["t"])["s"] if n.get("obj") else "?"
                out.append((rec, fn, tu.loc(n)))
    return out


# dimension fields, slowest first, of the storage of a record
LEAD = {"Image": [], "RadialSum": ["radii"], "Block": ["imagesInBlock"], "PyBlock": ["imagesInBlock"]}


def kind(rec):
    for k in ("RadialSum", "Image", "PyBlock", "Block"):
        if "stempy::" + k in rec:
            return k
    return None


def elem(E, rec):
    """element type of the storage: type of the pointed-to elements of the data member"""
    k = kind(rec)
    if k in ("Image", "RadialSum"):
        i = rec.find("stempy::" + k + "<")
        return rec[i:].split("<", 1)[1].split(">")[0]
    for tu in E.tus:
        for s, r in tu.records.items():
            if s == "stempy::" + k:
                for fl in r["fields"]:
                    if fl["n"] == "data":
                        t = tu.ty(fl["t"])["s"]
                        if "shared_ptr<" in t:
                            return t.split("shared_ptr<", 1)[1].split(">")[0].strip()
                        if t.endswith("DataHolder"):
                            return "unsigned short"
    return None


SIZES = [dict(W=5, H=7, radii=11, imagesInBlock=13), dict(W=3, H=2, radii=1, imagesInBlock=4), dict(W=17, H=1, radii=6, imagesInBlock=1)]


def dimension(env):
    def atom(t):
        p = pathof(t)
        if p is None:
            return None
        fs = fields(p)
        if fs[-1:] == ["first"] and any("imension" in x for x in fs):
            return env["W"]
        if fs[-1:] == ["second"] and any("imension" in x for x in fs):
            return env["H"]
        if fs[-1:] and fs[-1] in env:
            return env[fs[-1]]
        return None
    return atom


def check(ctx):
    xs = exporters()
    ctx.require(xs, "no exported buffer found")
    E0 = Engine()
    for rec, fn, at in xs:
        one(ctx, E0, rec, fn, at)
    allocations(ctx)
    vectors(ctx)
    pyblocks(ctx)


def one(ctx, E0, rec, fn, at):
    k = kind(rec)
    T = elem(E0, rec) if k else None
    if fn is None or T is None:
        ctx.und(R1, at, "exporter or record of %s not recognised" % rec)
        return
    at = "%s (%s)" % (k, at)
    E = analyse(ctx, fn)
    if E is None:
        return
    site = [e for e in E.events if e.kind == "call" and e.x.get("ctor") and str(e.val).endswith("buffer_info::buffer_info") and not e.x.get("copy")]
    if not site:
        ctx.und(R1, at, "no buffer description recognised")
        return
    for e in site:
        ctx.count("buffer descriptions compared")
        sig = e.x["key"] or ""
        a, cont = e.x["args"], e.x["cont"]
        seqs = [c for c in cont if c is not None]
        ptr = a[0]
        # pointer: the data member itself
        p = pathof(ptr) if isinstance(ptr, type(ZERO)) else None
        if p is not None and fields(p)[-1:] not in (["data"], ["array"]):
            ctx.bad(R1, at, "the buffer starts at %s" % ptr)
            return
        if p is None and isinstance(ptr, type(ZERO)) and ptr.op == "ptr" and ptr.args[1] is not ZERO and ptr.args[1] != "obj":
            ctx.bad(R1, at, "the buffer starts %s elements into the storage" % ptr.args[1])
            return
        if len(seqs) != 2:
            ctx.und(R1, at, "shape or strides not recognised")
            return
        tail = sig.split("(", 1)[-1]
        if tail.startswith("void *"):
            if isinstance(a[1], type(ZERO)) and a[1].op == "n" and a[1].args[0] != SIZE[T]:
                ctx.bad(R1, at, "items of %s bytes are exported from storage of %s" % (a[1], T))
                return
            fm = str(a[2])
            if "format_descriptor<" in fm:
                ft = fm.split("format_descriptor<", 1)[1].split(">")[0]
                if FMT.get(ft) != FMT.get(T):
                    ctx.bad(R1, at, "the format of %s is exported for storage of %s" % (ft, T))
                    return
            nd = a[3]
        else:
            ft = tail.split("*")[0].replace("const ", "").strip()
            if ft in FMT and FMT[ft] != FMT.get(T):
                ctx.bad(R1, at, "elements of type %s are exported for storage of %s" % (ft, T))
                return
            nd = None
        for env in SIZES:
            want = [env[x] for x in LEAD[k]] + [env["H"], env["W"]]
            ne = NumEval(dimension(env), E)
            try:
                (ns, cs), (nt, ct) = seqs
                shape = [ne.sel(cs, i) for i in range(int(ne.ev(ns)))]
                strides = [ne.sel(ct, i) for i in range(int(ne.ev(nt)))]
                n = ne.ev(nd) if nd is not None else len(shape)
            except Undecided as x:
                ctx.und(R1, at, "not summarised: %s" % str(x)[:200])
                return
            if n != len(want) or shape != want:
                ctx.bad(R1, at, "shape %s with %s axes is exported for %s" % (shape, n, describe(k, env)))
                return
            st = [SIZE[T]] * len(want)
            for i in range(len(want) - 2, -1, -1):
                st[i] = st[i + 1] * want[i + 1]
            if strides != st:
                ctx.bad(R1, at, "strides %s instead of %s are exported for %s" % (strides, st, describe(k, env)))
                return
    ctx.ok(R1, at, "pointer, item size, format, shape and strides agree")


def describe(k, env):
    return "%s of width %d, height %d%s" % (k, env["W"], env["H"], "".join(", %s %d" % (x, env[x]) for x in LEAD[k]))


def allocations(ctx):
    n = 0
    for f in all_functions():
        last = f["f"].split("::")[-1].split("<")[0]
        if last not in LEAD or not f["params"] or re.sub("<[^:]*>", "", f["f"]) != "stempy::%s::%s" % (last, last):
            continue
        E = analyse(ctx, f)
        if E is None or E.st is None:
            continue
        at = where(f)
        this = mk("root", "this", "this")
        data = E.lookup(loc_field(this, "data"))
        al = [e for e in E.events if e.kind == "alloc" and isinstance(e.val, type(ZERO)) and data.op == "ptr" and data.args[0] is e.loc]
        if not al:
            continue
        n += 1
        ctx.count("allocations compared")
        hdr = loc_field(this, "header") if last in ("Block", "PyBlock") else this
        dims = loc_field(hdr, "frameDimensions" if last in ("Block", "PyBlock") else "dimensions")
        for env in SIZES:
            ne = NumEval(ctor_atoms(f, env), E)
            try:
                have = ne.ev(al[0].val)
                want = ne.ev(E.lookup(loc_field(dims, "first"))) * ne.ev(E.lookup(loc_field(dims, "second")))
                for x in LEAD[last]:
                    want *= ne.ev(E.lookup(loc_field(hdr, x)))
            except Undecided as x:
                ctx.und(R2, at, "not summarised: %s" % str(x)[:200])
                break
            if have < want:
                ctx.bad(R2, at, "%s elements are allocated for an exported shape of %s elements (%s)" % (have, want, describe(last, env)))
                break
        else:
            ctx.ok(R2, at, "allocation and exported shape agree")
    if not n:
        ctx.und(R2, "-", "no allocating constructor recognised")


def ctor_atoms(f, env):
    base = dimension(env)
    ints = [p["n"] for p in f["params"] if f["_tu"].ty(p["t"])["k"] == "int"]
    prs = [p["n"] for p in f["params"] if "pair<" in f["_tu"].ty(p["t"])["s"]]

    def atom(t):
        p = pathof(t)
        if p is not None and p[0][0] == "p":
            if p[0][1] in ints and not p[1]:
                return env["radii"] + ints.index(p[0][1])
            if p[0][1] in prs:
                i = 10 * prs.index(p[0][1])
                return {"first": env["W"] + i, "second": env["H"] + i}.get((fields(p) or [""])[-1])
        return base(t)
    return atom


def pyblocks(ctx):
    """the reader of Python data sets: width is the last axis of the array, height the one before"""
    n = 0
    for f in all_functions(["stempy::PyReader::read"]):
        E = analyse(ctx, f)
        if E is None:
            continue
        for e in E.events:
            if e.kind != "enter" or not str(e.x["fn"]["f"]).endswith("Header::Header"):
                continue
            for v in e.x.get("vals") or ():
                if not isinstance(v, dict) or set(v) != {"first", "second"}:
                    continue
                axes = [re.search(r"py\(shape, .*\)@?>?\[(\d+)\]", str(v[k])) for k in ("first", "second")]
                if not all(axes):
                    continue
                axes = [int(m.group(1)) for m in axes]
                n += 1
                ctx.count("frame sizes taken from arrays")
                if axes == [2, 1]:
                    ctx.ok(R4, where(f), "width is axis 2, height is axis 1")
                else:
                    ctx.bad(R4, "%s, %s" % (where(f), e.at), "the width of the frames is taken from axis %d, their height from axis %d of the array" % tuple(axes), key="axes")
    if not n:
        ctx.und(R4, "stempy::PyReader::read", "frame size not recognised")


def vectors(ctx):
    """py::array built from a native vector"""
    for f in all_functions():
        if "pybind11::array" not in f["key"].split("|")[1].split("(")[0] or not any(
                "vector<" in f["_tu"].ty(p["t"])["s"] for p in f["params"]):
            continue
        E = analyse(ctx, f)
        if E is None:
            continue
        at = where(f)
        for e in E.events:
            if e.kind == "call" and e.x.get("ctor") and str(e.val).split("<")[0] in ("pybind11::array::array", "pybind11::array_t::array_t") and not e.x.get("copy"):
                a = [x for x in e.x["args"] if isinstance(x, type(ZERO))]
                if len(a) < 2:
                    continue
                ctx.count("vectors exported")
                size, ptr = a[0], a[1]
                if ptr.op != "ptr" or size.op == "root":
                    ctx.und(R3, at, "size or address not recognised")
                    continue
                base = ptr.args[0]
                if ptr.args[1] is not ZERO and ptr.args[1] != "obj":
                    ctx.bad(R3, at, "the array starts at element %s" % ptr.args[1])
                elif size is E.size(base) or size is mk("val", E.size_key(base)) or same_size(E, size, base):
                    ctx.ok(R3, at, "size and address of %s" % base)
                elif pathof(size) is not None and fields(pathof(size))[-1:] == ["#"]:
                    ctx.bad(R3, at, "size %s is used for the data of %s" % (size, base))
                elif size.op == "poly" and not isnum(sub(size, E.size(base))):
                    ctx.und(R3, at, "size %s not recognised" % size)
                elif isnum(sub(size, E.size(base))) and sub(size, E.size(base)).args[0] > 0:
                    ctx.bad(R3, at, "the array is longer than the data of %s" % base)
                else:
                    ctx.und(R3, at, "size %s not recognised" % size)


def same_size(E, size, base):
    d = sub(size, E.size(base))
    return d is ZERO
