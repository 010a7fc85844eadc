"""Every public method of SparseArray (and the image functions) is interpreted abstractly with the
expansion permission at entry as a symbol.  For every array allocation reached, its shape and the
path condition are evaluated over families of selections that cover the whole data set (all slices,
masks and index lists flattening the scan or the frame, repeats, one- and two-dimensional scans): an
allocation as large as the dense data must be unreachable while the permission is off, except inside
to_dense, whose own allocation must be reachable.  Selections of part of the data must stay possible
in to_dense-free indexing: one partial selection has to reach its allocation."""
from pychk import *

R1 = "no complete expansion without permission"
R2 = "to_dense reaches its expansion"
R3 = "partial selections are expanded"
ALLOC = ("zeros", "empty", "ones", "full")
FULL = [((6, 4), (6, 4), (10, 8)), ((6, 4), (24,), (10, 8)), ((6, 4), (6, 4), (80,)), ((6, 4), (24,), (80,)), ((6, 4), (7, 4), (10, 8)),
        ((24,), (24,), (10, 8)), ((24,), (24,), (80,)), ((6, 4), (6, 4, 1), (10, 8))]
PART = [((6, 4), (5, 4), (10, 8)), ((6, 4), (6, 4), (9, 8)), ((6, 4), (4,), (10, 8)), ((24,), (3,), (10, 8))]
FRAME = (10, 8)
SKIP = ("from_hdf5", "write_to_hdf5")


class Sel(Sizes):
    """sizes with the shapes of selections given"""

    def __init__(self, env, scan, s, f):
        super().__init__(env)
        self.scan, self.s, self.f = scan, s, f

    def selected(self, x):
        """shape of a selection x = (array over the scan or the frame)[...]"""
        while x[0] == "call" and x[1].split(".")[-1] in ("asarray", "array", "copy", "ascontiguousarray") and x[2] or x[0] == "meth" and x[1] == "copy":
            x = x[2][0] if x[0] == "call" else x[2]
        if x[0] == "meth" and x[1] in ("ravel", "flatten"):
            n = 1
            for k in self.selected(x[2]):
                n *= k
            return (n,)
        if x[0] == "item" and any(y[0] in ("joined", "param", "phi", "loopend") and y != SELF and y not in self.env for y in walk(x[2])):
            shape = self.shape(x[1])
            n = 1
            for k in shape:
                n *= k
            if n == 24:
                return self.s
            if n == 80:
                return self.f
        if x[0] == "item":
            shape = list(self.shape(x[1]))
            out = []
            for k in (x[2][1] if x[2][0] == "tuple" else (x[2],)):
                if k[0] == "slice":
                    out.append(len(range(shape.pop(0))[self.slice(k)]))
                elif k[0] == "const" and isinstance(k[1], int):
                    shape.pop(0)
                else:
                    raise Unknown(x)
            return tuple(out + shape)
        return self.shape(x)

    def shape(self, x):
        if x[0] == "new":
            return self.shape(x[2])
        if x[0] == "call" and x[1].split(".")[-1] in ALLOC:
            v = self.num(x[2][0])
            return v if isinstance(v, tuple) else (v,)
        if x[0] == "call" and x[1].split(".")[-1] == "arange":
            return (self.num(x[2][0]),)
        if x[0] == "meth" and x[1] == "reshape":
            a = [self.num(y) for y in x[3]]
            v = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
            return v
        raise Unknown(x)

    def num(self, t):
        if t in self.env:
            return self.env[t]
        o = t[0]
        if o == "attr" and t[2] == "shape":
            return self.selected(t[1])
        if o == "attr" and t[2] in ("size", "ndim") or o == "call" and t[1] == "len" and t[2] and t[2][0][0] == "item":
            try:
                v = self.selected(t[1] if o == "attr" else t[2][0])
            except Unknown:
                return super().num(t)
            n = 1
            for k in v:
                n *= k
            return n if o == "attr" and t[2] == "size" else len(v) if o == "attr" else v[0]
        if o == "call" and t[1].split(".")[-1] == "isinstance" and len(t[2]) == 2 and t[2][0][0] == "item" and "integer" in show(t[2][1]):
            return self.selected(t[2][0]) == ()
        if o == "call" and t[1].split(".")[-1] in ("prod", "sum", "max", "min") and len(t[2]) == 1:
            v = self.num(t[2][0])
            v = v if isinstance(v, tuple) else (v,)
            n = 1
            for k in v:
                n *= k
            return n if t[1].endswith("prod") else {"sum": sum, "max": max, "min": min}[t[1].split(".")[-1]](v)
        if o == "not":
            return not self.num(t[1])
        if o in ("and", "or"):
            und = None
            for x in t[1]:
                try:
                    if bool(self.num(x)) == (o == "or"):
                        return o == "or"
                except Unknown as e:
                    und = e
            if und:
                raise und
            return o == "and"
        if o == "cmp" and t[1] not in ("is", "is not", "in", "not in"):
            a, b = self.num(t[2]), self.num(t[3])
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[t[1]]()
        if o == "call" and t[1].split(".")[-1] == "len":
            v = self.num(t[2][0])
            return len(v)
        return super().num(t)


def feasible(Z, pc):
    """(False when a condition is refuted, conditions left open)"""
    opened = []
    for t, b in pc:
        try:
            if bool(Z.num(t)) != b:
                return False, []
        except (Unknown, KeyError, TypeError, IndexError, AttributeError):
            opened.append((t, b))
    return True, opened


def allocations(r):
    return [e for e in r.P.events if e.kind == "call" and e.name.split(".")[0] == "numpy" and e.name.split(".")[-1] in ALLOC and e.args]


def case(obj, scan, s, f, allow):
    return Sel({("attr", obj, "scan_shape"): scan, ("attr", obj, "frame_shape"): FRAME, ("attr", obj, "allow_full_expand"): allow,
                ("attr", obj, "sparse_slicing"): False}, scan, s, f)


def size(Z, e):
    try:
        v = Z.num(e.args[0].t)
    except (Unknown, KeyError, TypeError, IndexError, AttributeError):
        return None
    n = 1
    for k in v if isinstance(v, tuple) else (v,):
        n *= k
    return n


def check(ctx):
    n = 0
    names = [(SELF, m) for m in public_methods(ctx) if m not in SKIP]
    reached = {}
    for obj, m in names:
        r = method(ctx, m)
        if r is None:
            ctx.und(R1, "python/stempy", "%s: too large to follow" % m)
            continue
        n += entry(ctx, obj, m, r, m == "to_dense", reached)
    for mod, f, p in functions_with_array(ctx):
        r = function(ctx, mod, f, arrays=(p,))
        if r is not None:
            n += entry(ctx, ("param", p), f, r, False, reached)
    ctx.count("allocations evaluated", n)
    if reached.get("__getitem__") is None:
        ctx.und(R1, "python/stempy", "no allocation of the dense data found in indexing")


def entry(ctx, obj, m, r, allowed, reached):
    n = 0
    dense = {}
    seen = set()
    for e in allocations(r):
        key = (e.at, e.args[0].t, e.pc)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        for scan, s, f in FULL:
            Z = case(obj, scan, s, f, True)
            k = size(Z, e)
            if k is None or k < 24 * 80:
                continue
            reached[m] = e.at
            Z = case(obj, scan, s, f, False)
            ok, opened = feasible(Z, e.pc)
            dense.setdefault(e.at, []).append((ok, opened, scan, s, f))
    for at, res in dense.items():
        hit = [x for x in res if x[0]]
        if allowed:
            if hit:
                ctx.ok(R2, at, "%s: %d cases" % (m, len(res)))
            else:
                ctx.bad(R2, at, "%s never reaches the expansion" % m, key="dense:%s" % m)
            continue
        sure = [x for x in hit if not any(relevant(t) for t, b in x[1])]
        if sure:
            ok, o, scan, s, f = sure[0]
            ctx.bad(R1, at, "%s: selection of shape %s x %s of a %s scan of %s frames is expanded with the permission off" % (m, s, f, scan, FRAME),
                    key="expand:%s" % m)
        elif hit:
            ctx.und(R1, at, "%s: %s" % (m, show(hit[0][1][0][0])[:60]))
        else:
            ctx.ok(R1, at, "%s: unreachable in %d cases" % (m, len(res)))
    if m == "__getitem__":
        partial(ctx, obj, r)
    return n


def relevant(t):
    """may an open condition decide about the expansion"""
    return any(x[0] == "attr" and x[2] == "allow_full_expand" for x in walk(t))


def partial(ctx, obj, r):
    for scan, s, f in PART:
        want = 1
        for k in s + f:
            want *= k
        good = False
        for e in allocations(r):
            Z = case(obj, scan, s, f, False)
            if size(Z, e) == want and feasible(Z, e.pc)[0]:
                good = True
                break
        if good:
            ctx.ok(R3, r.at, "%s x %s of %s x %s" % (s, f, scan, FRAME))
        else:
            ctx.und(R3, r.at, "%s x %s of %s x %s: no allocation of that size found" % (s, f, scan, FRAME))
