"""The public methods of SparseArray, the image functions taking an array and the readers' Python
methods are interpreted abstractly and all terms they compute are collected.  Terms that depend only
on flat pixel numbers (elements of the stored frames, tracked through concatenation and raveling) and
on shapes are evaluated over all pixels of non-square frames: each must be a function of the row, of
the column, or the row-major number in the frame shape of the array it is stored in; a function of
the pixel number divided by another extent is reported.  Terms that rebuild a flat number from two
indices must multiply by the last extent; unravel_index, ravel_multi_index and reshape must be given
the axes of the scan or frame in order; rows and columns must reach the outputs and apertures named
after them.  For binning of scans the summary of the loop that fills the new table is evaluated for
two non-square scans: every new position must receive the frames of exactly its own block of old
positions, in row-major numbering of both scans."""
from pychk import *
from nda import Nd, Arr, Wrong, passes

R1 = "flat pixel number split with the number of columns"
R2 = "flat number rebuilt with the number of columns"
R3 = "shape given in order"
R4 = "rows and columns reach their outputs"
R5 = "binned scan positions take their own neighbours"
SHAPES = [((6, 4), (10, 14)), ((4, 10), (6, 16)), ((8, 6), (22, 8))]
BIN = 2


class Ev(Sizes):
    """evaluates terms over all flat pixel numbers"""

    def __init__(self, obj, scan, frame, flats):
        super().__init__({("attr", obj, "scan_shape"): scan, ("attr", obj, "frame_shape"): frame, ("param", "bin_factor"): BIN})
        self.obj, self.scan, self.frame, self.flats = obj, scan, frame, flats
        self.vec = list(range(frame[0] * frame[1]))
        self.memo = {}
        self.base = len(self.env)

    def num(self, t):
        if t in self.memo and len(self.env) == self.base:
            v = self.memo[t]
            if isinstance(v, Exception):
                raise v
            return v
        try:
            v = self.num1(t)
        except (Unknown, KeyError, TypeError, IndexError, ValueError, AttributeError, ZeroDivisionError, OverflowError):
            v = Unknown(t)
        if len(self.env) == self.base:
            self.memo[t] = v
        if isinstance(v, Exception):
            raise v
        return v

    def num1(self, t):
        if t in self.flats:
            return self.vec
        o = t[0]
        if o in ("attr", "meth") and isinstance(t[2] if o == "attr" else t[1], str):
            n = t[2] if o == "attr" else t[1]
            if n.endswith("scan_dimensions"):
                return self.scan[::-1]
            if n.endswith("frame_dimensions"):
                return self.frame[::-1]
        if o == "meth" and t[1] in ("astype", "copy", "ravel", "flatten", "view"):
            return self.num(t[2])
        if o == "attr" and t[2] == "shape" and isinstance(self.opt(t[1]), list):
            raise Unknown(t)
        if o == "neg":
            return bcast("*", self.num(t[1]), -1)
        if o == "cmp" and t[1] in ("==", "!=", "<", "<=", ">", ">="):
            return bcast(t[1], self.num(t[2]), self.num(t[3]))
        if o == "not":
            return not self.num(t[1])
        if o == "call":
            n = t[1].split(".")[-1]
            if n in ("floor_divide", "mod", "remainder", "add", "subtract", "multiply", "right_shift", "bitwise_and", "left_shift") and len(t[2]) == 2:
                op = {"floor_divide": "//", "mod": "%", "remainder": "%", "add": "+", "subtract": "-", "multiply": "*", "right_shift": ">>",
                      "bitwise_and": "&", "left_shift": "<<"}[n]
                return bcast(op, self.num(t[2][0]), self.num(t[2][1]))
            if n in ("divmod",):
                a, b = self.num(t[2][0]), self.num(t[2][1])
                return (bcast("//", a, b), bcast("%", a, b))
            if n == "unravel_index":
                a, s = self.num(t[2][0]), self.num(t[2][1])
                return (bcast("//", a, s[1]), bcast("%", a, s[1]))
            if n == "log2":
                import math
                return math.log2(self.num(t[2][0]))
            if n in ("int", "round", "floor", "int64", "uint32", "int32", "rint") and len(t[2]) == 1:
                v = self.num(t[2][0])
                return v if isinstance(v, list) else int(v)
            if n in ("asarray", "ascontiguousarray", "array", "copy", "deepcopy") and t[2]:
                return self.num(t[2][0])
            if n in ("max", "min") and t[2]:
                v = self.num(t[2][0])
                return (max if n == "max" else min)(v)
            if n == "sum" or n == "sqrt":
                raise Unknown(t)
        if o == "meth" and t[1] == "bit_length":
            return self.num(t[2]).bit_length()
        if o == "item":
            v = self.num(t[1])
            if isinstance(v, list):
                raise Unknown(t)
            return v[self.slice(t[2])]
        return super().num(t)

    def opt(self, t):
        try:
            return self.num(t)
        except Unknown:
            return None

    def pixels(self, t):
        v = self.opt(t)
        return v if isinstance(v, list) and len(v) == len(self.vec) else None

    def shape(self, t):
        v = self.opt(t)
        return v if isinstance(v, tuple) and all(isinstance(x, int) for x in v) else None


def level(t, obj, lists, memo):
    """2: table of frames, 1: sequence of frames, 0: flat pixel numbers; None: neither"""
    if t in memo:
        return memo[t]
    memo[t] = None
    memo[t] = r = level1(t, obj, lists, memo)
    return r


def level1(t, obj, lists, memo):
    o = t[0]
    L = lambda x: level(x, obj, lists, memo)
    if o == "attr" and t[1] == obj and t[2] == "data":
        return 2
    if o == "elem":
        v = L(t[1])
        return v - 1 if v else None
    if o == "item":
        v = L(t[1])
        if v is None:
            return None
        k = t[2]
        if k[0] == "tuple" and all(x == ("ext", "numpy.newaxis") or x[0] == "slice" for x in k[1]):
            return v
        if k[0] == "tuple" and v == 2 and len(k[1]) == 2:
            sc = [x for x in k[1] if x[0] in ("const", "idx")]
            return v - len(sc)
        if k[0] in ("const", "idx", "elem"):
            return v - 1 if v else None
        if k[0] in ("slice",):
            return v
        return v if v == 0 else None
    if o == "meth" and t[1] in ("ravel", "flatten", "copy", "astype"):
        v = L(t[2])
        return 1 if v == 2 and t[1] in ("ravel", "flatten") else v
    if o == "call" and t[2]:
        n = t[1].split(".")[-1]
        if n in ("concatenate", "hstack"):
            v = L(t[2][0])
            return v - 1 if v else None
        if n in ("copy", "deepcopy", "asarray", "list", "tuple"):
            return L(t[2][0])
    if o == "new" and t in lists:
        return 1
    return None


def collect(r):
    """every term computed in a run, with a place and the path condition it is first seen under"""
    out = {}

    def add(v, at, pc):
        for x in walk(v):
            out.setdefault(x, []) if x not in out else None
            if len(out[x]) < 6 and (at, pc) not in out[x]:
                out[x].append((at, pc))
    for e in r.P.events:
        for f in ("obj", "val", "key", "ret"):
            v = getattr(e, f, None)
            if v is not None and hasattr(v, "t"):
                add(v.t, e.at, e.pc)
        for a in (getattr(e, "args", None) or ()):
            if hasattr(a, "t"):
                add(a.t, e.at, e.pc)
    for x, v in r.returns():
        add(v.t, r.at, tuple(x.pc))
        for (o, a), w in x.heap.items():
            if w.t != ("deleted",):
                add(w.t, r.at, tuple(x.pc))
    return out


def entries(ctx):
    c = sparse(ctx)
    for m in public_methods(ctx):
        if m in ("from_hdf5", "write_to_hdf5"):
            continue
        names = [a.arg for f in c.members[m] for a in getattr(f, "args", ast.arguments(args=[], kwonlyargs=[])).args]
        for inp in (False, True) if "in_place" in names else (None,):
            yield SELF, m, method(ctx, m, {"in_place": const(inp)} if inp is not None else {})
    for mod, f, p in functions_with_array(ctx):
        yield ("param", p), f, function(ctx, mod, f, arrays=(p,))
    P = Py()
    for name in sorted(P.classes if hasattr(P, "classes") else ()):
        pass


def readers(ctx):
    """Python methods of the readers that take a scan position"""
    P = Py()
    m = P.mods.get(IO)
    for name, node in (m.names.items() if m else ()):
        if not isinstance(node, ast.ClassDef):
            continue
        for f in node.body:
            if isinstance(f, ast.FunctionDef) and "scan_position" in [a.arg for a in f.args.args]:
                P = Py()
                c = P.cls(name)
                try:
                    kind, v = P.member(c, f.name)
                    ex = P.run(v, {"self": P.instance("self", name)})
                except Exception as e:       # noqa
                    continue
                yield SELF, "%s.%s" % (name, f.name), Run(f.name, P, ex, where(P, f, c.mod), f)


def check(ctx):
    n = 0
    splits = 0
    for obj, m, r in list(entries(ctx)) + list(readers(ctx)):
        if r is None:
            ctx.und(R1, "python/stempy", "%s: too large to follow" % m)
            continue
        n += 1
        T = collect(r)
        lists = set()
        memo = {}
        for _ in range(2):
            for e in r.P.events:
                if e.kind == "mutcall" and getattr(e, "name", "") in ("append",) and e.args and level(e.args[0].t, obj, lists, {}) == 0:
                    lists.add(e.obj.t)
        flats = {t for t in T if level(t, obj, lists, memo) in (0, 1)}
        splits += decode(ctx, obj, m, r, T, flats)
        rebuild(ctx, obj, m, r, T, flats)
        shapes(ctx, obj, m, r, T, flats)
        roles(ctx, obj, m, r, T, flats)
    for inp in (False, True):
        groups(ctx, method(ctx, "bin_scans", {"in_place": const(inp)}))
    ctx.count("entry points", n)
    ctx.count("terms over flat pixel numbers", splits)
    ctx.require(n >= 12, "methods of SparseArray not found")


def refuted(Z, pcs):
    """do all paths on which the term is computed contradict these shapes"""
    for at, pc in pcs:
        ok = True
        for t, b in pc:
            v = Z.opt(t)
            if isinstance(v, (bool, int)) and bool(v) != b:
                ok = False
                break
        if ok:
            return False
    return True


def outshape(r, obj, Z):
    """frame shapes of the arrays the run produces"""
    out = set()
    for x, v in r.returns():
        w = x.heap.get((v.t, "frame_shape"))
        if w is not None:
            s = Z.shape(w.t)
            out.add(s)
    return out


def decode(ctx, obj, m, r, T, flats):
    if not flats:
        return 0
    cases = [Ev(obj, s, f, flats) for s, f in SHAPES]
    pure = [t for t in T if t not in flats and all(Z.pixels(t) is not None for Z in cases)]
    inner = set()
    for t in pure:
        for x in walk(t):
            if x != t:
                inner.add(x)
    n = 0
    for t in pure:
        if t in inner:
            # an intermediate step may be anything but a split at the wrong extent
            for Z in cases:
                v = Z.pixels(t)
                if not refuted(Z, T[t]) and not all(isinstance(x, bool) for x in v):
                    k = wrong_extent(v, Z.frame) or bits(t, v, Z)
                    if k:
                        ctx.bad(R1, T[t][0][0], "%s: %s %s" % (m, show(t)[:70], k[1:]), key="split:%s" % m)
                        break
            continue
        n += 1
        verdict = []
        for Z in cases:
            if refuted(Z, T[t]):
                continue
            outs = [s for s in outshape(r, obj, Z) if s] or [Z.frame]
            verdict.append(bits(t, Z.pixels(t), Z) or classify(Z.pixels(t), Z.frame, outs))
        at = T[t][0][0]
        wrong = [v for v in verdict if v.startswith("!")]
        if wrong:
            ctx.bad(R1, at, "%s: %s %s" % (m, show(t)[:70], wrong[0][1:]), key="split:%s" % m)
        elif "other" in verdict:
            ctx.und(R1, at, "%s: %s" % (m, show(t)[:70]))
        elif verdict:
            ctx.ok(R1, at, "%s: %s is %s" % (m, show(t)[:70], "/".join(sorted(set(verdict)))))
    return n


def by(v, key):
    d = {}
    for e, x in enumerate(v):
        if d.setdefault(key(e), x) != x:
            return False
    return True


def wrong_extent(v, frame):
    H, W = frame
    if by(v, lambda e: e // W) or by(v, lambda e: e % W):
        return ""
    if by(v, lambda e: e // H):
        return "!divides the pixel number by the number of rows"
    if by(v, lambda e: e % H):
        return "!takes the remainder with the number of rows"
    return ""


def bits(t, v, Z):
    """shifts and masks applied to a pixel number give exactly the row and the column"""
    while t[0] == "meth" and t[1] in ("astype", "copy"):
        t = t[2]
    if t[0] != "bin" or t[1] not in ("&", ">>") or t[2] not in Z.flats and t[3] not in Z.flats:
        return ""
    H, W = Z.frame
    want = [e % W for e in range(H * W)] if t[1] == "&" else [e // W for e in range(H * W)]
    return "" if v == want else "!is not the %s of the pixel in %s frames" % ("column" if t[1] == "&" else "row", Z.frame)


def classify(v, frame, outs):
    H, W = frame
    if all(isinstance(x, bool) for x in v):
        return "condition"
    row, col = by(v, lambda e: e // W), by(v, lambda e: e % W)
    if row and col:
        return "constant"
    if v == list(range(H * W)):
        return "number" if (H, W) in outs else "!keeps the numbering of %s frames in %s frames" % (frame, outs[0])
    for h, w in outs:
        if (h, w) != (H, W) and h and w and H % h == 0 and W % w == 0:
            br, bc = H // h, W // w
            if v == [((e // W) // br) * w + (e % W) // bc for e in range(H * W)]:
                return "row-major number"
    if row:
        return "row"
    if col:
        return "column"
    if wrong_extent(v, frame):
        return wrong_extent(v, frame)
    if (H // BIN, W // BIN) not in outs and v == [((e // W) // BIN) * (W // BIN) + (e % W) // BIN for e in range(H * W)]:
        return "!numbers the pixels of binned frames in frames of %s" % (outs[0],)
    for k in (-2, -1, 1, 2):
        if by(v, lambda e: e // (W + k)) or by(v, lambda e: e % (W + k)):
            return "!splits the pixel number with %d columns instead of %d" % (W + k, W)
    if len(set(v)) == len(v):
        return "other"
    # two-dimensional result: combination of row and column
    if all(isinstance(x, (int, float)) for x in v):
        add = all(v[r * W + c] - v[r * W] == v[c] - v[0] for r in range(H) for c in range(W))
        if add and (h, w) != (H, W):
            return "!renumbers pixels of %s frames wrongly for %s frames" % (frame, outs[0])
        h2 = all(e2 == v[(e // H) * H] + v[e % H] - v[0] for e, e2 in enumerate(v))
        if h2 and not add:
            return "!combines quotient and remainder with the number of rows"
    return "other"


def indexlike(t, Z):
    if Z.opt(t) is not None:
        return False
    return any(x[0] in ("elem", "idx") for x in walk(t)) or t[0] == "item" and t[1][0] == "param" or t[0] == "param"


def rebuild(ctx, obj, m, r, T, flats):
    Z1 = [Ev(obj, s, f, flats) for s, f in SHAPES]
    done = set()
    for t in T:
        if t[0] != "bin" or t[1] not in ("+", "|"):
            continue
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] != "bin" or a[1] != "*":
                continue
            for x, k in ((a[2], a[3]), (a[3], a[2])):
                if all(indexlike(x, Z) and isinstance(Z.opt(k), int) for Z in Z1) and indexlike(b, Z1[0]):
                    done.add(a)
                    one_rebuild(ctx, m, T[t][0][0], t, x, k, b, Z1)
    for t in T:
        if t[0] == "bin" and t[1] == "*" and t not in done:
            for x, k in ((t[2], t[3]), (t[3], t[2])):
                if all(indexlike(x, Z) and isinstance(Z.opt(k), int) for Z in Z1):
                    done.add(t)
                    ks = [(Z.opt(k), Z) for Z in Z1]
                    if all(v in (Z.scan[0], Z.frame[0]) and v not in (Z.scan[1], Z.frame[1]) for v, Z in ks):
                        ctx.bad(R2, T[t][0][0], "%s: %s multiplies an index by the number of rows" % (m, show(t)[:70]), key="rebuild:%s" % m)
                    elif all(v in (Z.scan[1], Z.frame[1]) for v, Z in ks):
                        ctx.ok(R2, T[t][0][0], "%s: %s" % (m, show(t)[:70]))


def one_rebuild(ctx, m, at, t, x, k, b, Z1):
    rng = None
    if x[0] == "item" and b[0] == "item" and x[1] == b[1] and x[2][0] == "const" and b[2][0] == "const" and isinstance(x[2][1], int) and isinstance(b[2][1], int):
        n = 2
        lead, last = x[2][1] % n if x[2][1] >= -n else 9, b[2][1] % n if b[2][1] >= -n else 9
        if (lead, last) == (1, 0):
            ctx.bad(R2, at, "%s: %s multiplies the column, not the row" % (m, show(t)[:70]), key="swapped:%s" % m)
            return
    if b[0] == "elem" and b[1][0] == "call" and b[1][1] == "range" and len(b[1][2]) == 1:
        rng = b[1][2][0]
    if b[0] == "idx":
        return
    for Z in Z1:
        v = Z.opt(k)
        n = Z.opt(rng) if rng is not None else None
        lasts = {Z.scan[1], Z.frame[1], Z.scan[1] // BIN, Z.frame[1] // BIN}
        firsts = {Z.scan[0], Z.frame[0], Z.scan[0] // BIN, Z.frame[0] // BIN}
        if isinstance(n, int):
            if n != v:
                ctx.bad(R2, at, "%s: %s with a last index below %d" % (m, show(t)[:70], n), key="rebuild:%s" % m)
                return
        elif v not in lasts:
            if v in firsts or v + 1 in lasts or v - 1 in lasts:
                ctx.bad(R2, at, "%s: %s multiplies by %d, columns are %s" % (m, show(t)[:70], v, sorted(lasts)), key="rebuild:%s" % m)
            else:
                ctx.und(R2, at, "%s: %s" % (m, show(t)[:70]))
            return
    ctx.ok(R2, at, "%s: %s" % (m, show(t)[:70]))


def shapes(ctx, obj, m, r, T, flats):
    Z1 = [Ev(obj, s, f, flats) for s, f in SHAPES]
    for t in T:
        at = T[t][0][0]
        if t[0] == "call" and t[1].split(".")[-1] in ("unravel_index", "ravel_multi_index") and len(t[2]) == 2:
            res = []
            for Z in Z1:
                s = Z.shape(t[2][1])
                if t[2][0][0] == "idx":
                    res.append(numbered(r, t[2][0], t[2][1], Z))
                elif s is None:
                    res.append("unknown")
                elif t[2][0] in flats:
                    res.append("same" if s == Z.frame else "pixel numbers of %s frames are split as %s" % (Z.frame, s))
                elif s in (Z.scan, Z.frame, half(Z.scan), half(Z.frame)) or len(s) == 1:
                    res.append("same")
                elif s[::-1] in (Z.scan, Z.frame, half(Z.scan), half(Z.frame)):
                    res.append("axes of %s in reverse order" % (s[::-1],))
                else:
                    res.append("unknown")
            report(ctx, R3, at, "%s: %s" % (m, show(t)[:60]), res, "unravel:%s" % m)
        s = a = None
        if t[0] == "meth" and t[1] == "reshape":
            a, s = t[2], t[3][0] if len(t[3]) == 1 else ("tuple", t[3])
        elif t[0] == "call" and t[1] == "numpy.reshape" and len(t[2]) >= 2:
            a, s = t[2][0], t[2][1]
        if s is not None:
            if ("order", ("const", "F")) in (t[4] if len(t) > 4 else t[3]):
                ctx.bad(R3, at, "%s: %s in column-major order" % (m, show(t)[:60]), key="reshape:%s" % m)
                continue
            res = []
            for Z in Z1:
                d = Z.shape(s)
                if d is None and a is not None:
                    d = partial_shape(Z, s)
                if d is None:
                    res.append("unknown")
                    continue
                try:
                    n = Z.size(a)
                except (Unknown, KeyError, TypeError, IndexError, ValueError):
                    n = None
                res.append(order(d, Z, n))
            report(ctx, R3, at, "%s: reshape to %s" % (m, show(s)[:50]), res, "reshape:%s" % m)


def numbered(r, i, shape, Z):
    """a running number over a sequence is split by the shape that sequence has"""
    info = r.P.loopinfo.get(i[1])
    if info is None or info.get("iter") is None:
        return "unknown"
    it = info["iter"]
    it = it.t if hasattr(it, "t") else it
    S = Sizes({("attr", Z.obj, "scan_shape"): Z.scan, ("attr", Z.obj, "frame_shape"): Z.frame})
    try:
        a, ua = S.prod(shape), set(S.used)
        S.used = set()
        b, ub = S.lead(it), set(S.used)
    except (Unknown, KeyError, TypeError, IndexError, ValueError):
        return "unknown"
    if a == b:
        return "same"
    if any(x[0] in ("joined", "param") and x != Z.obj for u in ua ^ ub for x in walk(u)):
        return "numbers of %s are split by the shape of %s" % ("the selection" if ub else "the whole scan", "the selection" if ua else "the whole scan")
    return "unknown"


def partial_shape(Z, s):
    """dimensions of a shape some extents of which are unknown (given as 0)"""
    if s[0] not in ("tuple", "list"):
        return None
    out = ()
    for x in s[1]:
        v = Z.opt(x[1] if x[0] == "star" else x)
        out += tuple(v) if isinstance(v, (tuple, list)) else (v if isinstance(v, int) else 0,)
    return out


def half(s):
    return tuple(x // BIN for x in s)


def order(d, Z, n):
    if len(d) < 2:
        return "same"
    found = rev = False
    for s in (Z.scan, Z.frame):
        found |= grouped(d, s)
        rev |= grouped(d, s[::-1])
    if found:
        return "same"
    if rev:
        return "reshaped to %s: axes of %s swapped" % (d, (Z.scan, Z.frame))
    return "unknown"


def grouped(d, s):
    """do consecutive groups of the dimensions d multiply to the extents of s"""
    for i in range(len(d)):
        for j in range(i + 1, len(d)):
            for k in range(j + 1, len(d) + 1):
                if prod(d[i:j]) == s[0] and prod(d[j:k]) == s[1]:
                    return True
    return False


def prod(v):
    n = 1
    for x in v:
        n *= x
    return n


def report(ctx, rule, at, what, res, key):
    wrong = [x for x in res if x not in ("same", "unknown")]
    if wrong and "same" not in res:
        ctx.bad(rule, at, "%s: %s" % (what, wrong[0]), key=key)
    elif "unknown" in res or wrong:
        ctx.und(rule, at, what)
    else:
        ctx.ok(rule, at, what)


def kinds(t, Z, seen=None):
    """which of row and column flow into the value of a term (not into selections)"""
    out = set()
    v = Z.pixels(t)
    if v is not None and t not in Z.flats:
        k = classify(v, Z.frame, [Z.frame])
        if k in ("row", "column"):
            return {k}
        if k != "other":
            return set()
    o = t[0]
    if o == "item":
        if t[1][0] == "item" and False:
            pass
        if is_mgrid(t[1]):
            return {"row"} if t[2] == ("const", 0) else {"column"} if t[2] == ("const", 1) else set()
        return kinds(t[1], Z)
    if o == "bin":
        return kinds(t[2], Z) | kinds(t[3], Z)
    if o == "call":
        n = t[1].split(".")[-1]
        if n == "bincount":
            for k, w in t[3]:
                if k == "weights":
                    return kinds(w, Z)
            return kinds(t[2][1], Z) if len(t[2]) > 1 else set()
        if n in ("len", "where", "any", "all", "count_nonzero", "shape"):
            return set()
        for a in t[2]:
            out |= kinds(a, Z)
        return out
    if o == "meth":
        return kinds(t[2], Z)
    if o in ("tuple", "list"):
        for a in t[1]:
            out |= kinds(a, Z)
    return out


def is_mgrid(t):
    return t[0] == "item" and t[1] == ("ext", "numpy.mgrid")


def roles(ctx, obj, m, r, T, flats):
    Z = Ev(obj, SHAPES[0][0], SHAPES[0][1], flats)
    apertures(ctx, m, T, Z)
    if not m.lstrip("_").startswith("com"):
        return
    for e in r.P.events:
        if e.kind != "setitem" or e.obj.t[0] != "new":
            continue
        k = e.key.t
        pairs = []
        if k[0] == "tuple" and k[1] and k[1][0][0] == "const" and k[1][0][1] in (0, 1):
            pairs = [(k[1][0][1], e.val.t)]
        elif k[0] == "tuple" and k[1] and k[1][0][0] == "slice" and e.val.t[0] == "tuple" and len(e.val.t[1]) == 2:
            pairs = list(enumerate(e.val.t[1]))
        for i, v in pairs:
            ks = kinds(v, Z)
            want = ("column", "row")[i]
            if ks == {want}:
                ctx.ok(R4, e.at, "%s: component %d is the %s" % (m, i, want))
            elif len(ks) == 1:
                ctx.bad(R4, e.at, "%s: component %d is computed from the %s" % (m, i, ks.pop()), key="role:%s:%d" % (m, i))
            else:
                ctx.count("components with other values")


def apertures(ctx, m, T, Z):
    """positions given as centers_x are columns, centers_y rows"""
    for t in T:
        if t[0] == "call" and t[1] == "numpy.ravel_multi_index" and t[2]:
            w = t[2][0]
            if w[0] == "call" and w[1] in ("numpy.where", "numpy.nonzero") and len(w[2]) == 1:
                x = w[2][0]
                turned = x[0] == "attr" and x[2] == "T" or x[0] == "meth" and x[1] == "transpose" and not x[3] or \
                    x[0] == "call" and x[1] == "numpy.transpose" and len(x[2]) == 1
                if turned and any(y[0] == "param" for y in walk(x)):
                    ctx.bad(R4, T[t][0][0], "%s: positions of a transposed mask are numbered with the shape of the scan" % m, key="transposed:%s" % m)
        if t[0] != "bin" or t[1] != "-":
            continue
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            v = Z.pixels(a)
            if v is None or a in Z.flats:
                continue
            k = classify(v, Z.frame, [Z.frame])
            names = {x[1] for x in walk(b) if x[0] == "param"} & {"centers_x", "centers_y"}
            c = b
            if k in ("row", "column") and c[0] == "item" and c[1][0] == "param" and c[1][1] in ("center", "init_center") and c[2][0] == "const" and c[2][1] in (0, 1):
                want = ("row", "column")[c[2][1]]
                (ctx.ok if k == want else lambda *a: ctx.bad(*a, key="center:%s" % m))(
                    R4, T[t][0][0], "%s: component %d of the center compared with the %s" % (m, c[2][1], k))
            if k in ("row", "column") and len(names) == 1:
                want = "column" if names == {"centers_x"} else "row"
                if k == want:
                    ctx.ok(R4, T[t][0][0], "%s: %s compared with the %s" % (m, "".join(names), k))
                else:
                    ctx.bad(R4, T[t][0][0], "%s: %s compared with the %s" % (m, "".join(names), k), key="aperture:%s" % m)


# --- binning of scans ------------------------------------------------------------------------------
def groups(ctx, r):
    if r is None:
        ctx.und(R5, "python/stempy", "bin_scans: too large to follow")
        return
    obj = SELF
    data = ("attr", obj, "data")
    seen = set()
    for e in r.P.events:
        if e.kind != "setitem" or e.op != "=":
            continue
        picks = {x for x in walk(e.val.t) if x[0] == "item" and x[1] == data}
        if not picks or (e.at, e.key.t, e.val.t) in seen:
            continue
        seen.add((e.at, e.key.t, e.val.t))
        for scan, b in (((6, 4), 2), ((3, 9), 3)):
            new = (scan[0] // b, scan[1] // b)
            N = Nd({("attr", obj, "scan_shape"): scan, ("param", "bin_factor"): b})
            got = {}
            try:
                for env in passes(N, list(e.loops)):
                    p = N.value(e.key.t, env)
                    if not isinstance(p, int):
                        raise Unknown("position")
                    for x in picks:
                        v = N.value(x[2], env)
                        got.setdefault(p, []).extend(v.flat if isinstance(v, Arr) else [v])
            except Wrong as w:
                ctx.bad(R5, e.at, "bin_scans: scan %s by %d fails: %s" % (scan, b, w), key="groups:bin_scans")
                continue
            except Unknown as w:
                ctx.und(R5, e.at, "bin_scans: groups not evaluated (%s)" % str(w)[:80])
                continue
            want = {}
            for i in range(scan[0]):
                for j in range(scan[1]):
                    want.setdefault(i // b * new[1] + j // b, []).append(i * scan[1] + j)
            wrong = [p for p in sorted(set(want) | set(got)) if sorted(got.get(p, [])) != want.get(p)]
            if wrong:
                p = wrong[0]
                ctx.bad(R5, e.at, "bin_scans: scan %s by %d: new position %d takes the old positions %s, its block is %s" % (
                    scan, b, p, sorted(got.get(p, [])), want.get(p)), key="groups:bin_scans")
            else:
                ctx.ok(R5, e.at, "bin_scans: scan %s by %d: every new position takes its block" % (scan, b))
