"""What is written to HDF5 is read back.  The HDF5 objects are abstract paths: File(..)['a/b'],
require_group, create_dataset, get and .attrs build names from string constants.  From every
writer the set of (path, attribute) with the stored value term is collected, from every reader
the set that is read.  (1) Names: a dataset, group or attribute a reader looks up (including
the ones it looks up with a default or tests for) is written by its writer; pairs: SparseArray
write_to_hdf5 / from_hdf5, save_raw_data + save_stem_images + native frame export /
get_hdf5_reader.  (2) Axes: the stored values are evaluated for a non-square scan and frame
shape, the reader's constructor arguments are evaluated over these stored values, and must give
the shape again; likewise the scan dimensions of raw data, for every source the reader has.
(3) The frames are stored flattened in C order with a coordinate type of at least 32 bits and
restored with the number of scans first; (4) the stored version is the class's version and is
loaded without conversion.  (5) Metadata: keys and values of nested dictionaries go to
attributes and subgroups of the same key and come back under it.  (6) Native export: the values
handed to createDataSet/setAttribute/updateData are evaluated for a non-square scan."""
from pychk import *
from c34 import conds, ERR
import c23cpp

R1 = "a name that is read is a name that is written"
R2 = "shape restored from the file is the shape that was saved"
R3 = "frames come back in the order and with the width they were saved"
R4 = "stored version is the version of the layout"
R5 = "metadata comes back under its key"

SCAN, FRAME, NUM = (3, 5), (7, 11), 2
GROUPS = ("require_group", "create_group", "create_dataset", "require_dataset", "get")
CONV = "convert_data_format"


def strip(t):
    while isinstance(t, tuple) and t and t[0] == "new" and len(t) > 2 and t[2][0] != "dict":
        t = t[2]
    return t


class H5:
    """names of the HDF5 objects a function uses; roots are terms that stand for an open file"""
    def __init__(self, roots=()):
        self.roots = set(roots)

    def path(self, t):
        t = strip(t)
        if not isinstance(t, tuple) or not t:
            return None
        if t in self.roots or t[0] == "call" and t[1] in ("h5py.File", "File"):
            return ""
        name = base = None
        if t[0] == "item" and t[2][0] == "const" and isinstance(t[2][1], str):
            base, name = t[1], t[2][1]
        elif t[0] == "meth" and t[1] in GROUPS:
            a = t[3][0] if t[3] else dict(t[4] if len(t) > 4 else ()).get("name")
            if a is not None and a[0] == "const" and isinstance(a[1], str):
                base, name = t[2], a[1]
        if name is None:
            return None
        if strip(base)[0] == "attr" and strip(base)[2] == "attrs":
            return None
        b = self.path(base)
        if b is None:
            return None
        return "/" + name.strip("/") if name.startswith("/") or not b else b + "/" + name.strip("/")

    def attrs(self, t):
        """the object whose attributes the term is"""
        t = strip(t)
        if t[0] == "attr" and t[2] == "attrs":
            return self.path(t[1])
        return None

    def attr_read(self, t):
        if t[0] == "item" and t[2][0] == "const":
            p = self.attrs(t[1])
            return None if p is None else (p, t[2][1])
        if t[0] == "meth" and t[1] == "get" and t[3] and t[3][0][0] == "const":
            p = self.attrs(t[2])
            return None if p is None else (p, t[3][0][1])
        return None


def every(r):
    """all the terms of a run: (term, place)"""
    for e in r.P.events:
        for k in ("obj", "key", "val"):
            v = getattr(e, k, None)
            if hasattr(v, "t"):
                yield v.t, e.at
            elif isinstance(v, tuple):
                yield v, e.at
        for a in getattr(e, "args", None) or ():
            if hasattr(a, "t"):
                yield a.t, e.at
        for a in (getattr(e, "kw", None) or {}).values() if isinstance(getattr(e, "kw", None), dict) else ():
            if hasattr(a, "t"):
                yield a.t, e.at
        for c, b in conds(e.pc):
            yield c, e.at
    for x, o in r.exits:
        for c, b in conds(x.pc):
            yield c, r.at
        if o is not None and o[0] == "return" and hasattr(o[1], "t"):
            yield o[1].t, r.at


def subs(r):
    seen = set()
    for t, at in every(r):
        for x in walk(t):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x not in seen:
                seen.add(x)
                yield x, at


def writes(r, h):
    """({path: [(term of the data or None, event)]}, {(path, attr): [(term, event)]}, paths with computed names)"""
    nodes, attrs, opened = {}, {}, set()
    for e in r.P.events:
        if e.kind == "meth" and e.name in GROUPS[:4]:
            t = ("meth", e.name, e.obj.t, tuple(a.t for a in e.args), tuple((k, v.t) for k, v in sorted((e.kw or {}).items())))
            p = h.path(t)
            if p is not None:
                kw = {k: v.t for k, v in (e.kw or {}).items()}
                nodes.setdefault(p, []).append((kw.get("data") or (e.args[3].t if len(e.args) > 3 else None), kw.get("dtype"), e))
            elif h.path(e.obj.t) is not None:
                opened.add(h.path(e.obj.t))
        if e.kind == "meth" and e.name in ("create", "modify") and h.attrs(e.obj.t) is not None and e.args:
            k = e.args[0].t
            v = e.args[1].t if len(e.args) > 1 else (e.kw or {}).get("data") and e.kw["data"].t
            if k[0] == "const" and v is not None:
                attrs.setdefault((h.attrs(e.obj.t), k[1]), []).append((v, e))
            else:
                opened.add(h.attrs(e.obj.t))
        if e.kind == "meth" and e.name == "update" and h.attrs(e.obj.t) is not None:
            opened.add(h.attrs(e.obj.t))
        if e.kind == "setitem":
            o = e.obj.t if hasattr(e.obj, "t") else e.obj
            k = e.key.t if hasattr(e.key, "t") else e.key
            if h.attrs(o) is not None:
                if k[0] == "const":
                    attrs.setdefault((h.attrs(o), k[1]), []).append((e.val.t, e))
                else:
                    opened.add(h.attrs(o))
            elif h.path(o) is not None:
                if k[0] == "const" and isinstance(k[1], str):
                    nodes.setdefault(h.path(("item", o, k)), []).append((e.val.t, None, e))
                else:
                    nodes.setdefault(h.path(o), []).append((e.val.t, None, e))
    return nodes, attrs, opened


def reads(r, h):
    nodes, attrs = {}, {}
    for t, at in subs(r):
        a = h.attr_read(t)
        if a is not None:
            attrs.setdefault(a, at)
        elif t[0] == "item" or t[0] == "meth" and t[1] == "get":
            p = h.path(t)
            if p:
                nodes.setdefault(p, at)
        elif t[0] == "cmp" and t[1] in ("in", "not in") and t[2][0] == "const" and isinstance(t[2][1], str):
            p = h.path(t[3])
            if p is not None:
                nodes.setdefault(h.path(("item", strip(t[3]), t[2])), at)
            p = h.attrs(t[3])
            if p is not None:
                attrs.setdefault((p, t[2][1]), at)
    return nodes, attrs


def names(ctx, what, rd, nodes, attrs, opened):
    rn, ra = rd
    have = set()
    for p in nodes:
        parts = p.strip("/").split("/")
        have |= {"/" + "/".join(parts[:i + 1]) for i in range(len(parts))}
    for p, at in sorted(rn.items()):
        ctx.count("names read")
        par = p.rsplit("/", 1)[0]
        if p in have:
            ctx.ok(R1, "%s: %s" % (at, p), what)
        elif par in opened:
            ctx.und(R1, "%s: %s" % (at, p), "computed names are written to %s" % (par or "/"))
        else:
            ctx.bad(R1, "%s: %s" % (at, p), "%s reads %s, which is never written (written: %s)" % (what, p, ", ".join(sorted(nodes))), key="%s:%s" % (what, p))
    for (p, n), at in sorted(ra.items(), key=str):
        ctx.count("names read")
        if (p, n) in attrs:
            ctx.ok(R1, "%s: %s@%s" % (at, p or "/", n), what)
        elif p in opened:
            ctx.und(R1, "%s: %s@%s" % (at, p or "/", n), "computed names are written")
        else:
            ctx.bad(R1, "%s: %s@%s" % (at, p or "/", n), "%s reads attribute %s of %s, which is never written (written: %s)" %
                    (what, n, p or "/", ", ".join("%s@%s" % (a or "/", b) for a, b in sorted(attrs, key=str))), key="%s:%s@%s" % (what, p, n))


class Env:
    """values of the object that is written, or of the file that is read"""
    def __init__(self, h, params=None, attrs=None, shapes=None):
        self.h, self.params, self.attrs_, self.shapes = h, params or {}, attrs or {}, shapes or {}

    def atom(self, t):
        if t in self.params:
            return self.params[t]
        a = self.h.attr_read(t)
        if a is not None:
            if a in self.attrs_:
                return self.attrs_[a]
            if t[0] == "meth" and t[1] == "get":
                return self.ev(t[3][1]) if len(t[3]) > 1 else Missing
            raise KeyError(a)
        if t[0] == "cmp" and t[1] in ("in", "not in") and t[2][0] == "const":
            p = self.h.path(t[3])
            if p is not None:
                q = self.h.path(("item", strip(t[3]), t[2]))
                return (q in self.shapes) == (t[1] == "in")
            p = self.h.attrs(t[3])
            if p is not None:
                return ((p, t[2][1]) in self.attrs_) == (t[1] == "in")
        if t[0] == "cmp" and t[1] in ("is", "is not") and t[3] == ("const", None):
            v = self.ev(t[2])
            return (v is None or v is Missing) == (t[1] == "is")
        if t[0] == "call" and t[1] in ("numpy.prod", "math.prod"):
            p = 1
            for x in self.ev(t[2][0]):
                p *= x
            return p
        if t[0] == "attr" and t[2] in ("shape", "size") and t not in self.params:
            s = self.shape(t[1])
            if s is not None:
                n = 1
                for x in s:
                    n *= x
                return s if t[2] == "shape" else n
        if t[0] == "call" and t[1] == "len":
            s = self.shape(t[2][0])
            if s is not None:
                return s[0]
        if t[0] == "item" and t[2][0] == "slice":
            a = self.ev(t[1])
            if isinstance(a, (list, tuple)):
                return a[slice(*[self.ev(x) for x in t[2][1:]])]
        return None

    def shape(self, t):
        t = strip(t)
        while t[0] == "item" and t[2] in (("tuple", ()), ("const", Ellipsis), ("slice", ("const", None), ("const", None), ("const", None))):
            t = strip(t[1])
        p = self.h.path(t)
        return self.shapes.get(p) if p is not None else None

    def ev(self, t):
        return evalt(t, {}, self.atom)

    def feasible(self, pc):
        for c, b in pc:
            try:
                if bool(self.ev(c)) != b:
                    return False
            except ERR:
                pass
        return True


Missing = None
STORED = ((SELF, "scan_shape"), (SELF, "frame_shape"), (SELF, "data"))


def sparse_pair(ctx):
    w = method(ctx, "write_to_hdf5")
    r = method(ctx, "from_hdf5", {"init_kwargs": V(("dict", ()), d={})}, opaque=(CONV,))
    if w is None or r is None:
        ctx.und(R1, "SparseArray", "writer or reader too large to follow")
        return
    h = H5()
    nodes, attrs, opened = writes(w, h)
    if not nodes or not attrs:
        ctx.und(R1, w.at, "nothing written is recognised")
        return
    ctx.count("names written", len(nodes) + len(attrs))
    names(ctx, "from_hdf5", reads(r, h), nodes, attrs, opened)
    n = SCAN[0] * SCAN[1]
    src = Env(h, {("attr", SELF, "scan_shape"): SCAN, ("attr", SELF, "frame_shape"): FRAME, ("attr", ("attr", SELF, "data"), "shape"): (n, NUM),
                  ("attr", ("attr", SELF, "data"), "size"): n * NUM})
    file = {}
    for k, vs in attrs.items():
        vals = []
        for t, e in vs:
            if not src.feasible(conds(e.pc)):
                continue
            try:
                vals.append(src.ev(t))
            except ERR:
                vals.append(None)
        if vals and all(v is not None and v == vals[0] for v in vals):
            file[k] = vals[0]
    version(ctx, w, r, file)
    frames = [p for p in nodes if p.endswith("/frames")]
    shapes = {p: ((n * NUM,) if p in frames else (n,)) for p in nodes}
    rd = Env(h, {("param", "keep_flyback"): True}, file, shapes)
    done = {}
    for e in r.P.events:
        if e.kind != "construct" or not e.kw or "scan_shape" not in e.kw or not rd.feasible(conds(e.pc)):
            continue
        for a, want in (("scan_shape", SCAN), ("frame_shape", FRAME)):
            if a not in e.kw:
                continue
            try:
                got = tuple(rd.ev(e.kw[a].t))
            except ERR:
                done.setdefault((a, e.at), None)
                continue
            done[(a, e.at)] = got if got != want else done.get((a, e.at)) or True
    for (a, at), got in sorted(done.items()):
        ctx.count("shapes evaluated")
        if got is True:
            ctx.ok(R2, "%s: %s" % (at, a))
        elif got is None:
            ctx.und(R2, "%s: %s" % (at, a), "not evaluated")
        else:
            ctx.bad(R2, "%s: %s" % (at, a), "%s %s is restored as %s" % (a, SCAN if a == "scan_shape" else FRAME, got), key=a)
    if not done:
        ctx.und(R2, r.at, "construction of the array not recognised")
    frames_stored(ctx, w, h, nodes, frames)
    frames_loaded(ctx, r, rd, h)
    metadata(ctx, w, r, h)


def version(ctx, w, r, file):
    P = Py()
    c = P.cls(SA)
    k, v = P.member(c, "VERSION")
    cur = v.t[1] if v is not None and v.t[0] == "const" else None
    got = [(k, x) for k, x in file.items() if "version" in str(k[1])]
    ctx.count("versions compared", len(got))
    for k, x in got:
        if cur is None:
            ctx.und(R4, w.at, "class version not constant")
        elif x == cur:
            ctx.ok(R4, w.at, "version %s" % x)
        else:
            ctx.bad(R4, w.at, "version %s is stored, the layout is that of version %s" % (x, cur), key="version")


def flat_of(t):
    """(term that is flattened, order) of a one-dimensional view"""
    t = strip(t)
    order, flat = "C", False
    while True:
        if t[0] == "meth" and t[1] in ("ravel", "flatten", "reshape"):
            kw = dict(t[4]) if len(t) > 4 else {}
            o = kw.get("order") or (t[3][0] if t[1] != "reshape" and t[3] else None)
            if t[1] == "reshape" and len(t[3]) != 1:
                return None
            if o is not None:
                if o[0] != "const":
                    return None
                if not flat:
                    order = o[1] if o[1] in ("F", "C") else "C"
            flat = True
            t = strip(t[2])
        elif t[0] == "attr" and t[2] == "T":
            order = "F" if order == "C" else "C"
            t = strip(t[1])
        elif t[0] == "meth" and t[1] in ("copy", "transpose") or t[0] == "call" and t[1] in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.ravel", "numpy.transpose"):
            n = t[1].split(".")[-1]
            args = t[3] if t[0] == "meth" else t[2][1:]
            if args and n == "transpose":
                return None
            if n == "transpose":
                order = "F" if order == "C" else "C"
            if n == "ravel":
                flat = True
            t = strip(t[2] if t[0] == "meth" else t[2][0])
        else:
            return t, order, flat


SMALL = ("numpy.uint8", "numpy.int8", "numpy.uint16", "numpy.int16", "numpy.bool_", "numpy.float16")


def frames_stored(ctx, w, h, nodes, frames):
    for p in frames:
        stored = False
        for data, dtype, e in nodes[p]:
            if dtype is not None:
                ctx.count("element types compared")
                small = [x[1] for x in walk(dtype) if isinstance(x, tuple) and len(x) == 2 and x[0] == "ext" and x[1] in SMALL] + \
                        [x[1] for x in walk(dtype) if isinstance(x, tuple) and len(x) == 2 and x[0] == "const" and "numpy.%s" % x[1] in SMALL]
                if small:
                    ctx.bad(R3, e.at, "coordinates are stored as %s; a frame has up to 2**32 pixels" % small[0], key="dtype")
                else:
                    ctx.ok(R3, e.at, "coordinate type %s" % show(dtype)[:60])
            if data is None:
                continue
            stored = True
            f = flat_of(data)
            ctx.count("stored orders compared")
            if f is None or f[0] != ("attr", SELF, "data"):
                ctx.und(R3, e.at, "stored value %s" % show(data)[:80])
            elif f[1] != "C":
                ctx.bad(R3, e.at, "the frames are stored in column order (%s), they are read in row order" % show(data), key="order")
            else:
                ctx.ok(R3, e.at, "stored flattened in C order")
        if not stored:
            ctx.bad(R3, w.at, "no frames are stored in %s" % p, key="empty:" + p)


def frames_loaded(ctx, r, rd, h):
    n = SCAN[0] * SCAN[1]
    seen = {}
    for e in r.P.events:
        if e.kind != "construct" or not e.kw or "data" not in e.kw or not rd.feasible(conds(e.pc)):
            continue
        t = strip(e.kw["data"].t)
        if any(x[0] == "call" and x[1].split(".")[-1] == CONV for x in walk(t) if isinstance(x, tuple) and x and isinstance(x[0], str)):
            seen[e.at] = "a file of the current version is converted"
            continue
        shp = None
        while t[0] == "meth" and t[1] in ("reshape", "copy", "astype"):
            if t[1] == "reshape":
                if dict(t[4] if len(t) > 4 else ()).get("order", ("const", "C")) != ("const", "C"):
                    seen[e.at] = "the frames are restored in another order than they are stored"
                a = t[3][0] if len(t[3]) == 1 else ("tuple", t[3])
                if shp is None:
                    shp = a
            t = strip(t[2])
        p = rd.h.path(t[1]) if t[0] == "item" else None
        if p is None or not p.endswith("/frames"):
            seen.setdefault(e.at, None)
            continue
        if shp is None:
            seen.setdefault(e.at, "the flattened frames are not reshaped to (scans, frames per scan)")
            continue
        try:
            got = tuple(rd.ev(shp))
        except ERR:
            seen.setdefault(e.at, None)
            continue
        got = tuple(n * NUM // abs(got[0] * got[1]) if x == -1 else x for x in got) if len(got) == 2 else got
        if got != (n, NUM):
            seen[e.at] = "frames of shape %s are restored with shape %s" % ((n, NUM), got)
        else:
            seen.setdefault(e.at, "")
    for at, d in sorted(seen.items()):
        ctx.count("restored orders compared")
        if d:
            ctx.bad(R3, at, d, key="restored")
        elif d == "":
            ctx.ok(R3, at, "restored to (scans, frames per scan)")
        else:
            ctx.und(R3, at, "restored data not recognised")


# ------------------------------------------------------------------ metadata
def elem_pair(k, v):
    """the container whose items the key and the value are, if they belong together"""
    def side(t, i):
        if t[0] == "item" and t[2] == ("const", i) and t[1][0] == "elem" and t[1][1][0] == "meth" and t[1][1][1] == "items":
            return t[1][1][2], t[1][2] if len(t[1]) > 2 else None
        return None
    a, b = side(k, 0), side(v, 1)
    return a, b, side(k, 1), side(v, 0)


def metadata(ctx, w, r, h):
    src, dst = {}, {}
    for e in w.P.events:
        if e.kind != "setitem" or not hasattr(e.obj, "t"):
            continue
        p = h.attrs(e.obj.t)
        if p is None or e.key.t[0] == "const":
            continue
        k, v, k1, v0 = elem_pair(e.key.t, e.val.t)
        if k and v and k == v:
            src.setdefault(p, []).append((k[0], e))
        elif k1 or v0 or k and v:
            ctx.bad(R5, e.at, "key %s is stored with value %s" % (show(e.key.t)[-40:], show(e.val.t)[-40:]), key="save pair")
    for e in r.P.events:
        if e.kind != "setitem" or not hasattr(e.obj, "t"):
            continue
        k, v, k1, v0 = elem_pair(e.key.t, e.val.t)
        if k and v and k == v and h.attrs(k[0]) is not None:
            dst.setdefault(h.attrs(k[0]), []).append((e.obj.t, e))
        elif (k1 or v0 or k and v) and any(h.attrs(x[0]) is not None for x in (k, v, k1, v0) if x):
            ctx.bad(R5, e.at, "key %s is loaded with value %s" % (show(e.key.t)[-40:], show(e.val.t)[-40:]), key="load pair")
    ctx.count("metadata groups compared", len(src) + len(dst))
    roots = {p: [x for x in xs if x[0] == ("attr", SELF, "metadata")] for p, xs in src.items()}
    roots = {p for p, xs in roots.items() if xs}
    if not roots or not dst:
        ctx.und(R5, w.at, "storing of the metadata not recognised")
        return
    for p in sorted(roots):
        if p not in dst:
            ctx.bad(R5, dst[sorted(dst)[0]][0][1].at, "metadata is written to %s and loaded from %s" % (p, ", ".join(sorted(dst))), key="group")
            continue
        ids = {x[0][1] for x in dst[p] if x[0][0] == "new"}
        lost = [e for e in r.P.events if e.kind == "construct" and e.kw and "scan_shape" in e.kw and ("metadata" not in e.kw or
                e.kw["metadata"].t[0] == "new" and e.kw["metadata"].t[1] not in ids or e.kw["metadata"].t[0] == "const")]
        if ids and lost:
            some = [e for e in r.P.events if e.kind == "construct" and e.kw and "metadata" in e.kw and e.kw["metadata"].t[:1] == ("new",) and e.kw["metadata"].t[1] in ids]
            if not some:
                ctx.bad(R5, lost[0].at, "the loaded metadata is not given to the array", key="dropped")
                continue
        ctx.ok(R5, "%s: %s" % (w.at, p), "attributes of %s" % p)
    nested(ctx)


def nested(ctx):
    """subgroups: the recursion of the writer and of the reader"""
    P = Py()
    for n in ("save_dict_to_h5", "load_h5_to_dict"):
        if n not in P.mods[SPARSE].names:
            ctx.und(R5, n, "function not found")
            continue
        r = function(ctx, SPARSE, n)
        if r is None:
            continue
        ok = False
        for e in r.P.events:
            if e.kind != "enter" or str(e.name).split(".")[-1] != n:
                continue
            ts = [a.t for a in e.args]
            group = [t for t in ts if t[0] in ("meth", "item") and gkey(t) is not None]
            ctx.count("metadata recursions compared")
            if n.startswith("save"):
                val = [t for t in ts if t[0] == "item" and t[2] == ("const", 1) and t[1][0] == "elem"]
                key = [gkey(t) for t in ts if t[0] == "meth" and t[1] in GROUPS[:2]]
                if val and key:
                    a, b, _, _ = elem_pair(key[0], val[0])
                    if a and b and a == b:
                        ok = True
                    elif key[0][0] == "const":
                        ctx.bad(R5, e.at, "every nested dictionary is stored in the group %s" % show(key[0]), key="nested save")
                elif val and any(t == ("param", "group") for t in ts):
                    ctx.bad(R5, e.at, "a nested dictionary is stored in the group of its parent", key="nested save")
            else:
                val = [t for t in ts if t[0] == "item" and t[2] == ("const", 1) and t[1][0] == "elem"]
                tgt = [t for t in ts if t[0] == "item" and t[1] == ("param", "d")]
                if val and tgt:
                    a, b, _, _ = elem_pair(tgt[0][2], val[0])
                    if a and b and a == b:
                        ok = True
                elif val and ("param", "d") in ts:
                    ctx.bad(R5, e.at, "a nested group is loaded into the dictionary of its parent", key="nested load")
        if ok:
            ctx.ok(R5, "%s: nested" % r.at)
        else:
            ctx.und(R5, "%s: nested" % r.at, "recursion not recognised")


def gkey(t):
    if t[0] == "meth" and t[1] in GROUPS[:2] and t[3]:
        return t[3][0]
    if t[0] == "item":
        return t[2]
    return None


# ------------------------------------------------------------------ raw data
def raw_pair(ctx):
    h = H5()
    nodes, attrs, opened = {}, {}, set()
    ws = {}
    for n in ("save_raw_data", "save_stem_images"):
        w = function(ctx, IO, n)
        if w is None:
            continue
        a, b, c = writes(w, h)
        ws[n] = (w, a, b)
        nodes.update(a)
        attrs.update(b)
        opened |= c
    hr = H5([("param", "h5file"), ("param", "path")])
    r = function(ctx, IO, "get_hdf5_reader")
    if r is None or not nodes:
        ctx.und(R1, IO, "raw data functions not recognised")
        return
    hr = H5([("param", a.arg) for a in r.node.args.args[:1]])
    rd = reads(r, hr)
    ctx.count("names written", len(nodes) + len(attrs))
    names(ctx, "get_hdf5_reader", rd, nodes, attrs, opened)
    native = c23cpp.check(ctx, SCAN)
    if native is not None:
        nn, na, at = native
        # what the native export writes under a name of its own would not be found by the reader
        need = [p for p in rd[0] if p in nn]
        for p in sorted(nn):
            ctx.count("native names compared")
            if p in nodes or any(q.startswith(p + "/") for q in nodes):
                ctx.ok(R1, "%s: %s" % (at, p), "native export")
            elif p.strip("/").split("/")[0] == "datacube":
                continue
            else:
                ctx.bad(R1, "%s: %s" % (at, p), "the native export writes %s, which no reader looks up" % p, key="native:%s" % p)
        for p, n in sorted(na):
            ctx.count("native names compared")
            if (p, n) in attrs:
                ctx.ok(R1, "%s: %s@%s" % (at, p, n), "native export")
            else:
                ctx.bad(R1, "%s: %s@%s" % (at, p, n), "the native export writes attribute %s of %s, which no reader looks up" % (n, p), key="native:%s@%s" % (p, n))
    # dimensions
    H, W = SCAN
    for n, (w, a, b) in ws.items():
        args = {x.arg for x in w.node.args.args}
        for k, vs in b.items():
            if k[1] != "scan_dimensions":
                continue
            for t, e in vs:
                ctx.count("dimensions evaluated")
                try:
                    got = tuple(Env(h, {("param", "scan_dimensions"): (W, H)}).ev(t))
                except ERR:
                    ctx.und(R2, e.at, show(t)[:80])
                    continue
                if got == (W, H):
                    ctx.ok(R2, "%s: %s" % (e.at, k[1]))
                else:
                    ctx.bad(R2, "%s: %s" % (e.at, k[1]), "scan dimensions %s are stored as %s" % ((W, H), got), key="raw scan_dimensions")
    for given in (True, False):
        at = {}
        env = Env(hr, {}, {("/frames", "scan_dimensions"): (W, H)} if given else {}, {"/frames": (W * H, 8, 9), "/stem/images": (2, H, W), "/stem": ()})
        for e in r.P.events:
            if e.kind not in ("call", "construct") or not e.args or "Reader" not in str(e.name if e.kind == "call" else e.cls) or not env.feasible(conds(e.pc)):
                continue
            m = [a.t for a in e.args] + [v.t for v in (e.kw or {}).values()]
            got = []
            for t in m:
                try:
                    v = env.ev(t)
                except ERR:
                    continue
                if isinstance(v, (tuple, list)) and len(v) == 2:
                    got.append(tuple(v))
            if len(got) == 1:
                at[e.at] = got[0] if got[0] != (W, H) else at.get(e.at) or True
            data = [t for t in m if hr.path(t) == "/frames"]
            if not data and any(hr.path(t) for t in m):
                ctx.bad(R1, e.at, "the reader is given %s instead of the frames" % [hr.path(t) for t in m if hr.path(t)][0], key="reader data")
        for a, got in at.items():
            ctx.count("dimensions evaluated")
            src = "stored scan dimensions" if given else "shape of the STEM images"
            if got is True:
                ctx.ok(R2, "%s: %s" % (a, src))
            else:
                ctx.bad(R2, "%s: %s" % (a, src), "a scan of width %d and height %d is read back with dimensions %s" % (W, H, got), key="raw:" + src)
        if not at:
            ctx.und(R2, r.at, "scan dimensions of the reader not evaluated")


def check(ctx):
    sparse_pair(ctx)
    raw_pair(ctx)
