"""from_hdf5 is interpreted once and its path conditions are evaluated for every version number from
below the first to beyond the current one, with and without the flyback column: a file of the current
version is used as stored, every other one goes through the conversion with its own version number, a
missing version number means the first version, the conversion gets the frames and positions of the
file uncropped, and what is cropped and the resulting scan shape agree for all paths.  The conversion
is interpreted for each released version: it ends normally, splits repeated pixels for the first
version, places the rows by the stored positions for the second, and ends in an exception for every
other version.  Repeats of a first-version file with one row per position must be recognised, and the
version number and shapes write_to_hdf5 stores must be the ones from_hdf5 restores."""
from pychk import *
from c31 import base, conds, slots

R1 = "every released version is converted"
R2 = "other versions are refused"
R3 = "the conversion gets the file's contents"
R4 = "scan shape and cropped column agree"
R5 = "what is written is read back"
CONV = "convert_data_format"
ERR = (Unknown, KeyError, TypeError, IndexError, ValueError, ZeroDivisionError)
NX, NY = 7, 5


def current(ctx):
    P = Py()
    c = sparse(ctx, P)
    kind, v = P.member(c, "VERSION") if "VERSION" in c.members else (None, None)
    t = getattr(v, "t", None)
    if t is not None and t[0] == "const":
        return t[1]
    for n in c.members.get("VERSION", ()):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
            return n.value.value
        if isinstance(n, ast.Constant):
            return n.value
    return None


class File:
    """numbers for the attributes of a file"""
    def __init__(self, version=None, keep=None, nx=NX, ny=NY, num=2, crop=False):
        self.v, self.keep, self.nx, self.ny, self.num = version, keep, nx, ny, num

    def atom(self, t):
        if is_version(t):
            return self.v
        if t == ("param", "keep_flyback"):
            return self.keep
        if t[0] == "cmp" and t[1] == "in" and t[2] == ("const", "version"):
            return True
        if t[0] == "item" and t[1][0] == "attr" and t[1][2] == "attrs" and t[2][0] == "const":
            k = t[2][1]
            scan = self.ds(t[1][1]) == "scan_positions"
            if k in ("Nx", "Ny"):
                return (self.nx if k == "Nx" else self.ny) if scan else (11 if k == "Nx" else 13)
        if t[0] == "call" and t[1] in ("numpy.prod", "math.prod"):
            p = 1
            for x in self.ev(t[2][0]):
                p *= x
            return p
        if t[0] == "attr" and t[2] == "shape" and self.ds(t[1]):
            return (self.nx * self.ny * self.num,)
        if t[0] == "call" and t[1] == "len" and (self.ds(t[2][0]) or whole(t[2][0]) and self.ds(whole(t[2][0]))):
            return self.nx * self.ny * self.num
        if t[0] == "item" and t[2][0] == "slice":
            a = self.ev(t[1])
            if isinstance(a, (list, tuple)):
                return a[slice(*[self.ev(x) for x in t[2][1:]])]
        return None

    def ds(self, t):
        """the dataset a term stands for"""
        while t[0] == "new":
            t = t[2]
        if t[0] == "item" and t[2][0] == "const" and isinstance(t[2][1], str):
            return t[2][1].split("/")[-1]
        return None

    def ev(self, t, env=None):
        return evalt(t, env or {}, self.atom)

    def feasible(self, pc):
        for c, b in pc:
            try:
                if bool(self.ev(c)) != b:
                    return False
            except ERR:
                pass
        return True


def is_version(t):
    return t[0] == "meth" and t[1] == "get" and t[3] and t[3][0] == ("const", "version") or t[0] == "item" and t[2] == ("const", "version")


def whole(t):
    """the dataset read completely"""
    while t[0] == "new":
        t = t[2]
    if t[0] == "item" and t[2] in (("tuple", ()), ("const", Ellipsis), ("slice", ("const", None), ("const", None), ("const", None))):
        return t[1]
    return None


def check(ctx):
    cur = current(ctx)
    ctx.require(isinstance(cur, int), "current format version not found")
    r = method(ctx, "from_hdf5", {"init_kwargs": V(("dict", ()), d={})}, opaque=(CONV,))
    if r is None:
        ctx.und(R1, "python/stempy", "from_hdf5 too large to follow")
    else:
        loading(ctx, r, cur)
    conversion(ctx, cur)
    written(ctx, cur)


# --- from_hdf5 -----------------------------------------------------------------------------------
def loading(ctx, r, cur):
    es = []
    for e in r.P.events:
        if e.kind == "construct" and e.kw and "data" in e.kw and not any(x.at == e.at and x.pc == e.pc for x in es):
            es.append(e)
    ctx.count("ways an array is constructed from a file", len(es))
    ctx.require(bool(es), "from_hdf5 constructs no array")
    vs = [x for e in r.P.events for c, _ in conds(e.pc) for x in walk(c) if is_version(x)]
    for x in set(vs):
        if x[0] == "meth":
            d = x[3][1] if len(x[3]) > 1 else ("const", None)
            if d == ("const", 1):
                ctx.ok(R1, r.at, "a file without version number has version 1")
            elif d[0] == "const":
                ctx.bad(R1, r.at, "a file without version number is taken for version %s" % (d[1],), key="default version")
    for v in [-1, 0] + list(range(1, cur + 1)) + [cur + 1, cur + 6]:
        for keep in (True, False):
            f = File(v, keep)
            n = 0
            for e in es:
                if not f.feasible(conds(e.pc)):
                    continue
                n += 1
                d = e.kw["data"].t
                cs = [x for x in walk(d) if x[0] == "call" and x[1].split(".")[-1] == CONV]
                if v == cur:
                    if cs:
                        try:
                            fr, to = f.ev(dict(cs[0][3])["from_version"]), f.ev(dict(cs[0][3])["to_version"])
                        except ERR:
                            continue
                        if fr != to:
                            ctx.bad(R1, e.at, "a file of the current version is converted from %s to %s" % (fr, to), key="current:converted")
                    shape(ctx, e, f, d, keep, cur)
                    continue
                if not cs:
                    ctx.bad(R1 if 0 < v < cur else R2, e.at, "a file of version %d (current: %d) is used without conversion" % (v, cur), key="unconverted:%d" % v)
                    continue
                one(ctx, r, e, f, cs[0], v, cur)
                if 0 < v < cur:
                    shape(ctx, e, f, d, keep, cur)
            if not n and 0 < v <= cur:
                ctx.bad(R1, r.at, "no way to load a file of version %d%s" % (v, "" if keep else " without flyback"), key="no load:%d" % v)
    partial(ctx, r, cur)


ORDER = ("data", "scan_positions", "scan_shape", "frame_shape", "from_version", "to_version")


def one(ctx, r, e, f, c, v, cur):
    kw = dict(zip(parameters(), c[2]))
    kw.update(dict(c[3]))
    try:
        fr, to = f.ev(kw["from_version"]), f.ev(kw["to_version"])
    except ERR:
        ctx.und(R1, e.at, "version numbers of the conversion not evaluated")
        return
    if (fr, to) != (v, cur):
        ctx.bad(R1, e.at, "a file of version %s is converted from %s to %s" % (v, fr, to), key="versions:%s" % v)
    else:
        ctx.ok(R1, e.at, "version %s converted from %s to %s" % (v, fr, to))
    if not 0 < v < cur:
        return
    d, p, s = kw.get("data"), kw.get("scan_positions"), kw.get("scan_shape")
    t = d
    while t[0] in ("meth", "new"):
        t = t[2]
    if whole(t) is not None and f.ds(whole(t)) == "frames":
        ctx.ok(R3, e.at, "version %d: all frames of the file are converted" % v)
    elif t[0] == "call" and t[1] == "numpy.empty":
        ctx.bad(R3, e.at, "version %d: frames are cropped by their number in the file before they are sorted by scan position" % v, key="cropped early")
    else:
        ctx.und(R3, e.at, "version %d: frames handed to the conversion: %s" % (v, show(d)[:60]))
    t = p
    while t[0] == "new":
        t = t[2]
    if whole(t) is not None and f.ds(whole(t)) == "scan_positions":
        ctx.ok(R3, e.at, "version %d: the stored scan positions are used" % v)
    elif t[0] == "call" and t[1] in ("numpy.arange", "numpy.ravel_multi_index", "numpy.zeros", "range"):
        ctx.bad(R3, e.at, "version %d: the stored scan positions are not used but %s" % (v, t[1]), key="positions")
    else:
        ctx.und(R3, e.at, "version %d: positions handed to the conversion: %s" % (v, show(p)[:60]))
    try:
        sh = tuple(f.ev(s))
        if sh == (NY, NX):
            ctx.ok(R3, e.at, "version %d: full scan shape" % v)
        elif sorted(sh) == sorted((NX, NY)):
            ctx.ok(R3, e.at, "version %d: number of positions" % v)
        else:
            ctx.bad(R3, e.at, "version %d: converted for a scan of shape %s, stored %s" % (v, sh, (NY, NX)), key="scan shape")
    except ERR:
        ctx.und(R3, e.at, "version %d: scan shape" % v)


def parameters():
    P = Py()
    m = P.mods.get(COMPAT)
    n = m.names.get(CONV) if m else None
    return [a.arg for a in n.args.args] if isinstance(n, ast.FunctionDef) else ORDER


def shape(ctx, e, f, d, keep, cur):
    try:
        sh = tuple(f.ev(e.kw["scan_shape"].t))
    except ERR:
        ctx.und(R4, e.at, "scan shape of the loaded array not evaluated")
        return
    want = (NY, NX if keep else NX - 1)
    if sh != want:
        ctx.bad(R4, e.at, "version %d, flyback column %s: scan shape %s instead of %s" % (f.v, "kept" if keep else "cropped", sh, want), key="shape:%s" % keep)
        return
    ctx.ok(R4, e.at, "version %d, flyback column %s: scan shape %s" % (f.v, "kept" if keep else "cropped", sh))
    if keep:
        return
    t = d
    for x in walk(d):
        if x[0] == "item" and x[2][0] in ("tuple", "slice") and x[1][0] == "meth" and x[1][1] == "reshape":
            try:
                k = x[2][1] if x[2][0] == "tuple" else (x[2],)
                sl = [slice(*[f.ev(z) for z in y[1:]]) for y in k]
            except ERR:
                ctx.und(R4, e.at, "cropping of the last column not evaluated")
                return
            if len(sl) >= 2 and list(range(NY))[sl[0]] == list(range(NY)) and list(range(NX))[sl[1]] == list(range(NX - 1)):
                ctx.ok(R4, e.at, "version %d: the last column is cropped" % f.v)
            else:
                ctx.bad(R4, e.at, "version %d: instead of the last column rows %s, columns %s are kept" % (
                    f.v, list(range(NY))[sl[0]], list(range(NX))[sl[1]] if len(sl) > 1 else "all"), key="column")
            return


def partial(ctx, r, cur):
    """frames copied row by row: exactly those outside the last column, in order"""
    done = set()
    for e in r.P.events:
        if e.kind != "setitem" or e.key.t[0] != "slice" or len(e.loops) != 1 or e.at in done:
            continue
        val = e.val.t
        f = File(cur, False, 4, 3, 2)
        if val[0] != "item" or val[2][0] != "slice" or f.ds(val[1]) != "frames":
            continue
        done.add(e.at)
        u, it = e.loops[0]
        got = {}
        try:
            n = range(*[f.ev(x) for x in it[2]]) if it[0] == "call" and it[1] == "range" else None
            if n is None:
                raise Unknown("loop")
            size = f.ev(base(e.obj.t)[2][0])
            for i in n:
                env = {("elem", it, u): i}
                dst = list(range(size))[slice(*[f.ev(x, env) for x in e.key.t[1:]])]
                src = list(range(24))[slice(*[f.ev(x, env) for x in val[2][1:]])]
                if len(dst) != len(src):
                    raise Unknown("lengths %d, %d" % (len(dst), len(src)))
                got.update(zip(dst, src))
        except ERR as x:
            if "lengths" in str(x):
                ctx.bad(R4, e.at, "cropping while reading: row copies of different lengths", key="row copy")
            else:
                ctx.und(R4, e.at, "cropping while reading not evaluated")
            continue
        want = [i for i in range(24) if (i // 2) % 4 != 3]
        if [got.get(i) for i in range(len(want))] == want and len(got) == len(want) == size:
            ctx.ok(R4, e.at, "cropping while reading keeps all frames outside the last column in order")
        else:
            ctx.bad(R4, e.at, "cropping while reading (4x3 scan, 2 frames each) keeps frames %s" % [got.get(i) for i in range(size)][:18], key="row copy")


# --- conversion ----------------------------------------------------------------------------------
def conversion(ctx, cur):
    P = Py()
    m = P.mods.get(COMPAT)
    ctx.require(m is not None and isinstance(m.names.get(CONV), ast.FunctionDef), "%s not found" % CONV)
    for v in [-1, 0] + list(range(1, cur + 1)) + [cur + 1, cur + 6]:
        r = function(ctx, COMPAT, CONV, {"from_version": const(v), "to_version": const(cur)})
        if r is None:
            ctx.und(R1, "python/stempy", "conversion from %s too large to follow" % v)
            continue
        rets = r.returns()
        if not 0 < v <= cur:
            if rets:
                ctx.bad(R2, r.at, "conversion from version %d to %d ends normally" % (v, cur), key="accepted:%d" % v)
            else:
                ctx.ok(R2, r.at, "conversion from version %d to %d raises" % (v, cur))
            continue
        if not rets:
            ctx.bad(R1, r.at, "conversion from version %d to %d always raises" % (v, cur), key="refused:%d" % v)
            continue
        if v == cur:
            if all(x[1].t == ("param", "data") for x in rets):
                ctx.ok(R1, r.at, "current version unchanged")
            else:
                ctx.und(R1, r.at, "current version: returns %s" % show(rets[0][1].t)[:60])
            continue
        layout(ctx, r, v, cur, rets)


def detected(ctx, r):
    """a file of the first version has one row per scan position; its repeats must be split whenever there are some"""
    es = [e for e in r.P.events if e.kind == "call" and e.name == "numpy.unique" and e.loops and any(k == "return_counts" for k in (e.kw or {}))]
    if not es:
        return
    n = NX * NY

    def atom(t):
        if t == ("call", "len", (("param", "data"),), ()) or t == ("attr", ("param", "data"), "size") or \
                t == ("item", ("attr", ("param", "data"), "shape"), ("const", 0)):
            return n
        if t[0] == "call" and t[1] in ("numpy.prod", "math.prod") and t[2] == (("param", "scan_shape"),):
            return n
        if t[0] == "call" and t[1] in ("any", "numpy.any") and any(x[0] == "call" and x[1] == "numpy.unique" for x in walk(t)):
            c = [x for x in walk(t) if x[0] == "comp"]
            if c and c[0][2][0] == "cmp" and c[0][2][1] in ("!=", "<", ">"):
                return True
        return None
    res = []
    for e in es:
        out = True
        for c, b in conds(e.pc):
            try:
                if bool(evalt(c, {}, atom)) != b:
                    out = False
                    break
            except ERR:
                out = None
        res.append(out)
    if all(x is False for x in res):
        ctx.bad(R1, es[0].at, "a file of version 1 with one row per scan position and repeated pixels is not recognised: its repeats stay in one frame", key="not recognised")
    elif any(x is True for x in res):
        ctx.ok(R1, es[0].at, "repeats in a file of version 1 with one row per scan position are split")
    else:
        ctx.und(R1, es[0].at, "recognition of version 1 not evaluated")


def written(ctx, cur):
    """the shapes and the version written are the ones read back"""
    w = method(ctx, "write_to_hdf5")
    r = method(ctx, "from_hdf5", {"init_kwargs": V(("dict", ()), d={})}, opaque=(CONV,))
    if w is None or r is None:
        ctx.und(R5, "python/stempy", "too large to follow")
        return
    scan, frame = (5, 7), (11, 13)
    S = Sizes({("attr", SELF, "scan_shape"): scan, ("attr", SELF, "frame_shape"): frame})
    attrs, at, ver = {}, {}, None
    for e in w.P.events:
        if e.kind != "setitem" or e.obj.t[0] != "attr" or e.obj.t[2] != "attrs" or e.key.t[0] != "const" or e.loops:
            continue
        k = e.key.t[1]
        if k == "version":
            ver = e
            continue
        o = e.obj.t[1]
        while o[0] == "new":
            o = o[2]
        if o[0] == "meth" and o[1] in ("create_dataset", "require_dataset") and o[3] and o[3][0][0] == "const":
            ds = o[3][0][1].split("/")[-1]
            try:
                attrs[ds, k] = S.num(e.val.t)
                at[ds] = e.at
            except ERR:
                ctx.und(R5, e.at, "attribute %s of %s not evaluated" % (k, ds))
    if ver is not None:
        if ver.val.t == ("const", cur):
            ctx.ok(R5, ver.at, "files are written with version %d" % cur)
        elif ver.val.t[0] == "const":
            ctx.bad(R5, ver.at, "files are written with version %s, the layout written is that of version %d" % (ver.val.t[1], cur), key="written version")
    else:
        ctx.und(R5, w.at, "no version number found among the attributes written")

    class Back(File):
        def atom(self, t):
            if t[0] == "item" and t[1][0] == "attr" and t[1][2] == "attrs" and t[2][0] == "const":
                v = attrs.get((self.ds(t[1][1]), t[2][1]))
                if v is not None:
                    return v
            return File.atom(self, t)
    f = Back(cur, True, scan[1], scan[0])
    es = [e for e in r.P.events if e.kind == "construct" and e.kw and "data" in e.kw and f.feasible(conds(e.pc))]
    for name, want, ds in (("scan_shape", scan, "scan_positions"), ("frame_shape", frame, "frames")):
        if not any(k[0] == ds for k in attrs):
            ctx.und(R5, w.at, "no attributes of %s" % ds)
            continue
        for e in es[:1]:
            try:
                t = e.kw[name].t
                if t[0] == "comp":
                    got = tuple(Sizes0(f).comp(t))
                else:
                    got = tuple(f.ev(t))
            except ERR:
                ctx.und(R5, e.at, "%s read back not evaluated: %s" % (name, show(e.kw[name].t)[:60]))
                continue
            if got == want:
                ctx.ok(R5, at[ds], "%s is read back as written" % name)
            else:
                ctx.bad(R5, at[ds], "an array with %s %s is read back with %s" % (name, want, got), key="read back:%s" % name)


class Sizes0:
    def __init__(self, f):
        self.f = f

    def comp(self, t):
        for x in self.f.ev(t[3]):
            hit = {y: x for y in walk(t[2]) if y[0] == "elem" and y[1] == t[3]}
            yield self.f.ev(t[2], hit)


def layout(ctx, r, v, cur, rets):
    ev = r.P.events
    if v == 1:
        detected(ctx, r)
    slots(ctx, "version %d to %d" % (v, cur), r)
    if v == 1:
        if any(e.kind == "call" and e.name.split(".")[-1] in ("unique", "bincount", "Counter") and e.loops and
               (e.name.split(".")[-1] != "unique" or any(k == "return_counts" for k in (e.kw or {}))) for e in ev):
            ctx.ok(R1, r.at, "version 1: repeated pixels of a row are looked for")
        else:
            ctx.bad(R1, r.at, "version 1 to %d: repeated pixels of a row are not moved to further frames" % cur, key="layout:1")
    if cur < 3:
        return
    tables = [x for x in rets if x[1].items is None and base(x[1].t)[0] == "call" and base(x[1].t)[1] in ("numpy.empty", "numpy.full", "numpy.zeros")]
    if len(tables) != len(rets):
        pair = [x for x in rets if x[1].items is not None or x[1].t[0] == "tuple" or x[1].t == ("param", "data")]
        if pair:
            ctx.bad(R1, r.at, "version %d to %d: the frames are returned in the layout of an older version" % (v, cur), key="layout:%d" % v)
        else:
            ctx.und(R1, r.at, "version %d: result %s" % (v, show(rets[0][1].t)[:60]))
        return
    ctx.ok(R1, r.at, "version %d: result is a table of positions and frames" % v)
    pos = [t[2][1] for e in ev if e.kind == "setitem" for u, t in e.loops if t[0] == "call" and t[1] == "zip" and len(t[2]) == 2]
    if v == 2 and pos:
        if ("param", "scan_positions") in pos:
            ctx.ok(R3, r.at, "version 2: rows placed by the stored positions")
        else:
            ctx.bad(R3, r.at, "version 2: rows placed by %s" % show(pos[0])[:60], key="placed:2")
    first = [e for e in ev if e.kind == "setitem" and base(e.obj.t) in [base(x[1].t) for x in rets]]
    by_pos = [e for e in first if any(x[0] == "elem" and x[1][0] == "call" and x[1][1] == "zip" or x[0] in ("item", "elem") and x[1] in pos for y in (e.obj.t, e.key.t) for x in walk(y))]
    if first and not by_pos:
        ctx.und(R3, r.at, "version %d: how rows are placed is not followed" % v)
