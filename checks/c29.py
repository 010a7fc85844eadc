"""Every public method of SparseArray is interpreted abstractly; for each SparseArray it constructs
and returns (and for the array itself when it is binned or raveled in place), the term stored for every setting must be the setting of the source, the number of
positions the data term provides must equal the product of the scan shape stored with it (shape
algebra over the allocation and selection terms, over several source shapes), and data taken over
without remapping keeps the frame shape of the source."""
from pychk import *

R0 = "constructor stores what it is given"
R1 = "setting kept"
R2 = "scan shape describes the data"
R3 = "frame shape describes the data"
SHAPES = [((6, 4), (10, 8)), ((4, 10), (6, 12)), ((8, 2), (4, 4))]
SKIP = ("from_hdf5",)


def check(ctx):
    S = settings(ctx)
    c = sparse(ctx)
    stored(ctx, c)
    n = 0
    for m in public_methods(ctx):
        if m in SKIP:
            continue
        names = [a.arg for f in c.members[m] for a in getattr(f, "args", ast.arguments(args=[], kwonlyargs=[])).args]
        for inp in (False, True) if "in_place" in names else (None,):
            r = method(ctx, m, {"in_place": const(inp)} if inp is not None else {})
            if r is None:
                ctx.und(R1, "python/stempy", "%s: too large to follow" % m)
                continue
            n += one(ctx, r, m, S)
    ctx.count("derived arrays", n)
    ctx.require(n >= 3, "no method returning a derived SparseArray found")


def stored(ctx, c):
    P = Py()
    c = P.cls(SA)
    k, v = P.member(c, "__init__")
    for x, o in P.run(v, {"self": P.instance("self", SA)}):
        for (obj, a), w in x.heap.items():
            if obj != SELF or o is not None and o[0] == "raise":
                continue
            if any(y == ("param", a) for y in walk(w.t)) or w.t[0] in ("phi", "loopend", "joined") or a == "metadata":
                ctx.ok(R0, "__init__", a)
            elif a in [q.arg for q in c.members["__init__"][0].args.args]:
                ctx.bad(R0, where(P, c.members["__init__"][0], c.mod), "the constructor stores %s = %s" % (a, show(w.t)[:50]), key="init:%s" % a)


def one(ctx, r, m, S):
        n = 0
        seen = set()
        for x, v in r.returns():
            h = x.heap
            if v.t[0] not in ("obj", "new", "param") or not any((v.t, a) in h for a in STATE):
                continue
            key = tuple((a, last(h, v.t, a)) for a in S + ["data", "scan_shape", "frame_shape"])
            if key in seen:
                continue
            seen.add(key)
            n += 1
            derived(ctx, r, m, x, v.t, S)
        return n


def derived(ctx, r, m, x, obj, S):
    h = x.heap
    at = next((e.at for e in r.P.events if e.kind in ("construct", "setattr") and e.obj.t == obj and (e.kind == "construct" or e.attr in STATE)), r.at)
    for a in S:
        t = last(h, obj, a)
        if t == ("attr", SELF, a):
            ctx.ok(R1, at, "%s: %s" % (m, a))
        elif t[0] in ("phi", "loopend", "joined") or any(y[0] == "param" and y != SELF for y in walk(t)):
            ctx.und(R1, at, "%s: %s = %s" % (m, a, show(t)[:50]))
        else:
            ctx.bad(R1, at, "%s returns an array with %s = %s" % (m, a, show(t)[:50]), key="setting:%s:%s" % (m, a))
    d, ss, fs = [last(h, obj, a) for a in ("data", "scan_shape", "frame_shape")]
    def cond(*terms):
        """does the path assume that the selections in these terms select everything"""
        js = {w for y in terms for w in walk(y) if w[0] == "joined" or w[0] == "param" and w != SELF}
        return any(b is False and (y[0] != "call" or y[1].split(".")[-1] not in ("isinstance", "hasattr", "issubclass", "len")) and y[0] in ("call", "and", "or", "not", "joined", "phi", "loopend") and any(w in js for w in walk(y)) for y, b in x.pc)

    res = []
    for scan, frame in SHAPES:
        Z = Sizes({("attr", SELF, "scan_shape"): scan, ("attr", SELF, "frame_shape"): frame, ("param", "bin_factor"): 2})
        try:
            a = Z.prod(ss)
            ua, Z.used = Z.used, set()
            b = Z.lead(d)
            ub = Z.used
        except (Unknown, KeyError, TypeError, IndexError):
            res.append("unknown")
            continue
        if a == b:
            res.append("same")
        elif ua == ub or not cond(*(ua | ub)):
            res.append("%s positions for a scan shape of %s" % ((b, a) if not ua | ub else ("selected" if ub else "all", "the selection" if ua else "the source")))
        else:
            res.append("unknown")
    wrong = [y for y in res if y not in ("same", "unknown")]
    if wrong:
        ctx.bad(R2, at, "%s: %s" % (m, wrong[0]), key="scan:%s" % m)
    elif "unknown" in res:
        ctx.und(R2, at, "%s: %s" % (m, show(d)[:60]))
    else:
        ctx.ok(R2, at, "%s: %s" % (m, show(ss)[:60]))
    whole = unmapped(d) or rebuilt(r, d)
    if not whole:
        ctx.count("derived arrays with remapped frames")
        remapped(ctx, r, m, at, d, fs)
        return
    res = []
    for scan, frame in SHAPES:
        Z = Sizes({("attr", SELF, "scan_shape"): scan, ("attr", SELF, "frame_shape"): frame, ("param", "bin_factor"): 2})
        try:
            v = tuple(Z.num(fs))
            res.append("same" if v == frame else "frames of shape %s get the frame shape %s" % (frame, v))
            if obj != SELF and whole == "all":
                v = tuple(Z.num(ss))
                if v != scan:
                    ctx.bad(R2, at, "%s: all positions of a %s scan get the scan shape %s" % (m, scan, v), key="scanorder:%s" % m)
        except (Unknown, KeyError, TypeError, IndexError):
            a = Z.shape_of(fs)
            res.append("unknown" if a is None or cond(a) or any(y[0] == "param" and y != SELF for y in walk(a)) else
                       "frames taken over unchanged get the shape of %s" % show(a)[:60])
    wrong = [y for y in res if y not in ("same", "unknown")]
    if wrong:
        ctx.bad(R3, at, "%s: %s" % (m, wrong[0]), key="frame:%s" % m)
    elif "unknown" in res:
        ctx.und(R3, at, "%s: %s" % (m, show(fs)[:60]))
    else:
        ctx.ok(R3, at, "%s: frames taken over with their shape" % m)


def remapped(ctx, r, m, at, d, fs):
    """pixels renumbered through a table: as many new numbers as the new frame shape has pixels"""
    d = base(d)
    maps = set()
    for e in r.P.events:
        if e.kind == "setitem" and e.obj.t == d:
            maps |= {y for y in walk(e.val.t) if y[0] == "new" and y[2][0] == "call" and y[2][1].split(".")[-1] in ("full", "zeros", "empty", "ones")}
    for e in r.P.events:
        if e.kind != "setitem" or e.obj.t not in maps:
            continue
        res = []
        for scan, frame in SHAPES:
            Z = Sizes({("attr", SELF, "scan_shape"): scan, ("attr", SELF, "frame_shape"): frame})
            try:
                a, b = Z.size(e.val.t), Z.prod(fs)
                res.append("same" if a == b else "pixels numbered up to the selected number, frame shape %s" % show(fs)[:40])
            except (Unknown, KeyError, TypeError, IndexError):
                res.append("unknown")
        wrong = [y for y in res if y not in ("same", "unknown")]
        if wrong:
            ctx.bad(R3, at, "%s: %s" % (m, wrong[0]), key="remap:%s" % m)
        elif "unknown" in res:
            ctx.und(R3, at, "%s: table %s" % (m, show(e.val.t)[:60]))
        else:
            ctx.ok(R3, at, "%s: table of %s" % (m, show(e.val.t)[:60]))


def base(d):
    while d[0] in ("item", "call", "meth"):
        if d[0] == "item":
            d = d[1]
        elif d[0] == "call" and d[1].split(".")[-1] in ("deepcopy", "copy") and d[2]:
            d = d[2][0]
        elif d[0] == "meth" and d[1] == "copy":
            d = d[2]
        else:
            break
    return d


def rebuilt(r, d):
    """an object array every entry of which is a frame (or frames joined) of the source"""
    d = base(d)
    ev = [e for e in r.P.events if e.kind == "setitem" and e.obj.t == d]
    return d[0] == "new" and bool(ev) and all(joins(e.val.t) for e in ev) and "some"


def joins(t):
    while t[0] == "call" and t[1].split(".")[-1] in ("concatenate", "hstack") and t[2]:
        t = t[2][0]
    return bool(unmapped(t))


def unmapped(d):
    """is the data the source's (all of it, or some positions) with the frames unchanged"""
    r = "all"
    while True:
        if d == ("attr", SELF, "data"):
            return r
        if d[0] == "item":
            if d[2] != ("tuple", (("slice", ("const", None), ("const", None), ("const", None)), ("ext", "numpy.newaxis"))):
                r = "some"
            d = d[1]
        elif d[0] == "call" and d[1].split(".")[-1] in ("deepcopy", "copy") and d[2]:
            d = d[2][0]
        elif d[0] == "meth" and d[1] == "copy":
            d = d[2]
        else:
            return False
