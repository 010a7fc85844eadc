"""Native frame and data cube export of C23: names and values of the calls of the HDF5 layer."""
from cxx import *
from numeval import NumEval, Undecided
from fractions import Fraction as F

R6 = "native export: scan shape, place and type of what is written"
H = "h5::H5ReadWrite::"
CALLS = ("createDataSet", "setAttribute", "updateData", "createGroup", "writeData")
FIRST = (576, 576)


def entries():
    return ("toHdf5FrameFormat", "toHdf5DataCubeFormat")


def s(t):
    return t.args[0] if getattr(t, "op", None) == "str" else None


def record(E):
    def upd(E, e):
        try:
            args = [E.val(a) for a in e["args"]]
            out = [E.content(E.psplit(p)[0] if p.op == "ptr" else p) for p in args[-2:]]
            E.h5 = getattr(E, "h5", {})
            E.h5[E.at(e)] = (args, out)     # the last pass over the loops stands
        except Exception:
            pass
        return None
    return {H + "updateData": upd}


class Atom:
    def __init__(self, scan, pos, k):
        self.h, self.w = scan
        self.pos, self.k = pos, k

    def __call__(self, t):
        st = str(t)
        if t.op in ("val", "phi", "ite", "phiend", "known", "proj", "at", "io"):
            if st.rstrip(">)").endswith("scanDimensions.first"):
                return F(self.w)
            if st.rstrip(">)").endswith("scanDimensions.second"):
                return F(self.h)
            if st.rstrip(">)").endswith(("FRAME_DIMENSIONS.first", "frameDimensions.first")):
                return F(FIRST[0])
            if st.rstrip(">)").endswith(("FRAME_DIMENSIONS.second", "frameDimensions.second")):
                return F(FIRST[1])
            if "imageNumbers" in st and t.op != "phi":
                return F(self.pos)
            if st.rstrip(">)").endswith("dims#2#") or (t.op == "phi" and st.rstrip(")").endswith("#")):
                return F(0)
        if t.op == "k":
            return F(self.k)
        return None


def number(t, scan, pos=0, k=0):
    if t is None:
        return None
    import terms
    m = {x: num(pos) for x in terms.subterms(t) if x.op == "sel" and "imageNumbers" in str(x.args[0])}
    if m:
        t = terms.subst(t, m)
    try:
        return int(NumEval(Atom(scan, pos, k)).ev(t))
    except Exception:
        return None


def element(E, c, i, scan, depth=0):
    """element i of the contents of an array"""
    while True:
        if c.op == "store":
            n = number(c.args[1], scan)
            if n is None:
                return None
            if n == i:
                return c.args[2]
            c = c.args[0]
        elif c.op == "fill":
            return c.args[0]
        elif c.op == "phi" and depth < 4:
            for r in E.rec.values():
                if c in r.get("eqs", {}):
                    init, nxt = r["eqs"][c]
                    t = nxt
                    while t.op == "store":
                        n = number(t.args[1], scan)
                        if n is None or n == i:
                            return None
                        t = t.args[0]
                    if t is not c:
                        return None
                    return element(E, init, i, scan, depth + 1)
            return None
        else:
            return None


def vector(c, scan):
    """numbers of a vector given as (length, contents)"""
    if c is None or c[0] is None:
        return None
    n = number(c[0], scan)
    if n is None:
        return None
    out = {}
    t = c[1]
    while getattr(t, "op", None) in ("store", "astore"):
        i = number(t.args[1], scan)
        if i is None:
            return None
        out.setdefault(i, number(t.args[2], scan))
        t = t.args[0]
    return [out.get(i) for i in range(n)] if n < 16 else None


def judge(ctx, at, what, got, want, key):
    ctx.count("native values evaluated")
    if got is None or any(x is None and w is not None for x, w in zip(got, want)):
        ctx.und(R6, "%s: %s" % (at, what), "not evaluated")
    elif len(got) != len(want) or any(w is not None and x != w for x, w in zip(got, want)):
        ctx.bad(R6, "%s: %s" % (at, what), "%s is %s for a scan of width 5 and height 3, expected %s" % (what, tuple(got), tuple(want)), key=key)
    else:
        ctx.ok(R6, "%s: %s" % (at, what), str(tuple(got)))


def check(ctx, scan):
    """names written: {path}, {(path, attribute)}, where; None when nothing was recognised"""
    hgt, wid = scan
    nodes, attrs, at0 = set(), set(), ""
    for n in entries():
        for f in functions(ctx, "stempy::SectorStreamReader::" + n):
            E = analyse(ctx, f, opaque=[H + c for c in CALLS], hooks=record(None))
            if E is None:
                continue
            at0 = at0 or where(f)
            types = {}
            for e in E.events:
                if e.kind != "call" or not str(e.x.get("name", "")).startswith(H):
                    continue
                m = e.x["name"].split("::")[-1]
                a, cont = e.x["args"], e.x["cont"]
                if m == "createGroup" and s(a[0]):
                    nodes.add("/" + s(a[0]).strip("/"))
                if m in ("createDataSet", "writeData") and s(a[0]) is not None and s(a[1]) is not None:
                    p = "/" + (s(a[0]).strip("/") + "/" + s(a[1])).strip("/")
                    nodes.add(p)
                    dims = vector(cont[2], scan)
                    types[p] = (number(a[3] if m == "createDataSet" else a[3], scan), dims)
                    if p == "/frames":
                        judge(ctx, e.at, "dimensions of /frames", dims, (wid * hgt, FIRST[1], FIRST[0]), "dims:frames")
                    elif p == "/stem/images":
                        judge(ctx, e.at, "dimensions of /stem/images", dims, (None, hgt, wid), "dims:stem")
                    elif p == "/datacube":
                        if dims is not None and len(dims) == 4:
                            ctx.count("native values evaluated")
                            if None not in dims[:2] and sorted(dims[:2]) != sorted((wid, hgt)):
                                ctx.bad(R6, e.at, "the data cube has scan axes %s for a scan of %d by %d" % (tuple(dims[:2]), wid, hgt), key="dims:cube")
                if m == "setAttribute" and s(a[0]) and s(a[1]):
                    p = "/" + s(a[0]).strip("/")
                    attrs.add((p, s(a[1])))
                    if s(a[1]) == "scan_dimensions":
                        judge(ctx, e.at, "attribute scan_dimensions", vector(cont[2], scan), (wid, hgt), "attr:scan_dimensions")
            for at, (args, cs) in sorted(getattr(E, "h5", {}).items()):
                out = [[element(E, c, i, scan) for i in range(4)] for c in cs]
                p = s(args[0])
                if p is None or p not in types:
                    if p is not None:
                        ctx.bad(R6, at, "frames are written to %s, which is not created here (%s)" % (p, ", ".join(sorted(types))), key="target:" + p)
                    continue
                ty = number(args[2], scan)
                ctx.count("native values evaluated")
                if ty is not None and types[p][0] is not None and ty != types[p][0]:
                    ctx.bad(R6, at, "%s is created with type %s and written with type %s" % (p, types[p][0], ty), key="type:" + p)
                place(ctx, at, p, args, out, types[p][1], scan, n)
    layout(ctx)
    return (nodes, attrs, at0) if nodes else None


R7 = "export writes the layout asked for"


def layout(ctx):
    """toHdf5 hands each format to the function that writes it"""
    P = "stempy::SectorStreamReader::"
    for f in functions(ctx, P + "toHdf5", required=False):
        i = [k for k, p in enumerate(f["params"]) if "Format" in f["_tu"].ty(p["t"])["s"]]
        E = analyse(ctx, f, opaque=[P + n for n in entries()]) if len(i) == 1 else None
        if E is None:
            continue
        fmt = pval(f, i[0])
        got, order = {}, enum_order(f, i[0])
        try:
            for v in (order or {}).values():
                ne = NumEval(lambda t: v if t is fmt else None, E)
                got[v] = [e for e in E.events if e.kind == "call" and str(e.x.get("name", "")).split("::")[-1] in entries() and
                          all(bool(ne.ev(l)) for l in e.pc if any(y is fmt for y in [l] + list(subterms(l))))]
        except Undecided as u:
            ctx.und(R7, where(f), str(u)[:120])
            continue
        if order is None or set(order) != {"Frame", "DataCube"}:
            ctx.und(R7, where(f), "enumeration not recognised")
            continue
        want = {order["Frame"]: "toHdf5FrameFormat", order["DataCube"]: "toHdf5DataCubeFormat"}
        for v, es in got.items():
            names = [str(e.x["name"]).split("::")[-1] for e in es]
            if names == [want[v]]:
                ctx.ok(R7, where(f), "%s" % want[v])
            else:
                ctx.bad(R7, es[0].at if es else where(f), "format %s is written by %s" % (
                    [n for n, x in order.items() if x == v][0], ", ".join(names) or "nothing"), key="layout:%d" % v)


def enum_order(f, i):
    """enumerators of the format parameter's type and their values"""
    for name, r in f["_tu"].enums.items():
        if name.endswith("H5Format"):
            return {x["n"]: x["v"] for x in r["vals"]}
    return None


def place(ctx, at, p, args, out, dims, scan, fn):
    hgt, wid = scan
    nd = 3 if "Frame" in fn else 4
    seen, bad = {}, None
    for pos in range(wid * hgt):
        st = [number(t, scan, pos) for t in out[0][:nd]]
        ct = [number(t, scan, pos) for t in out[1][:nd]]
        ctx.count("frame places evaluated")
        if None in st:
            ctx.und(R6, "%s: place in %s" % (at, p), "not evaluated: %s" % [str(x)[:60] for x in out[0][:nd]])
            return
        if nd == 3 and st != [pos, 0, 0]:
            bad = "frame of scan position %d goes to %s" % (pos, tuple(st))
        if nd == 4:
            if dims and None not in dims and any(x >= d for x, d in zip(st, dims)):
                bad = "frame of scan position %d goes to %s outside the cube %s" % (pos, tuple(st), tuple(dims))
            if tuple(st) in seen:
                bad = "scan positions %d and %d go to the same place %s" % (seen[tuple(st)], pos, tuple(st))
            seen[tuple(st)] = pos
        if None not in ct and ct != [1] * (nd - 2) + [FIRST[1], FIRST[0]]:
            bad = "a frame is written with extent %s" % (tuple(ct),)
        if bad:
            ctx.bad(R6, "%s: place in %s" % (at, p), bad, key="place:" + p)
            return
    ctx.ok(R6, "%s: place in %s" % (at, p), "%d scan positions" % (wid * hgt))
    # the frame in the block
    b = [number(E_off(args[3]), scan, 0, k) if E_off(args[3]) is not None else None for k in range(3)]
    if None not in b:
        ctx.count("native values evaluated")
        if b != [k * FIRST[0] * FIRST[1] for k in range(3)]:
            ctx.bad(R6, "%s: source of %s" % (at, p), "frames of a block are taken from offsets %s" % b, key="source:" + p)
        else:
            ctx.ok(R6, "%s: source of %s" % (at, p))
    else:
        ctx.und(R6, "%s: source of %s" % (at, p), str(args[3])[:120])


def E_off(t):
    return t.args[1] if t.op == "ptr" and t.args[1] != "obj" else None
