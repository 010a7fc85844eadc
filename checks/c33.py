"""The reductions of SparseArray (found as the public methods with an axis argument) are interpreted for
a scan position without events and for integer and floating result types: no maximum or minimum is
taken of the (empty) counts of a position without an initial value or a test excluding emptiness, a
minimum over positions includes the empty ones, what is stored for an empty position is zero, limits
of a result type are taken only from the family it belongs to, a buffer used for all positions is
cleared for each, division into an integer result is declared, and the empty frames filled in by the
other operations have an integer type so that they can be used as indices."""
from pychk import *
from c26 import level
from c31 import base, conds

R1 = "extremes of an empty position are defined"
R2 = "an empty position contributes zero"
R3 = "limits taken from the right family of types"
R4 = "buffers cleared for every position"
R5 = "division works for integer results"
R6 = "empty frames are usable as indices"
EXT = ("max", "min", "amax", "amin", "argmax", "argmin", "ptp", "nanmax", "nanmin")
ERR = (Unknown, KeyError, TypeError, IndexError, ValueError, ZeroDivisionError)


def check(ctx):
    c = sparse(ctx)
    n = 0
    for m in public_methods(ctx):
        names = [a.arg for f in c.members[m] for a in getattr(f, "args", ast.arguments(args=[], kwonlyargs=[])).args]
        if m in ("from_hdf5", "write_to_hdf5"):
            continue
        args = {"in_place": const(False)} if "in_place" in names else {}
        r = method(ctx, m, args)
        if r is None:
            ctx.und(R1, "python/stempy", "%s: too large to follow" % m)
            continue
        n += 1
        one(ctx, m, r, "axis" in names)
    P = Py()
    for mod in (IO, COMPAT, SPARSE):
        for name, node in (P.mods[mod].names.items() if mod in P.mods else ()):
            if isinstance(node, ast.FunctionDef) and mod == COMPAT:
                r = function(ctx, mod, name)
                if r is not None:
                    one(ctx, name, r, False)
    ctx.count("methods and functions", n)
    ctx.require(n >= 5, "no reductions found")


class Empty:
    """values for a position without events: frames present, none with an event"""
    def __init__(self, L, size=6):
        self.L, self.size = L, size

    def atom(self, t):
        L = self.L
        if t[0] == "item" and t[1][0] == "call" and t[1][1] == "numpy.unique" and self.flat(t[1][2][0]):
            return []
        if t[0] == "call" and t[1] == "numpy.unique" and self.flat(t[2][0]):
            return []
        if t[0] == "call" and t[1] == "numpy.bincount":
            return [0] * self.size if any(k == "minlength" for k, _ in t[3]) else []
        if t[0] == "attr" and t[2] == "size" and self.value(t[1]) == []:
            return 0
        if t[0] == "attr" and t[2] == "shape" and self.value(t[1]) == []:
            return (0,)
        if t[0] in ("elem", "item") and t[1][0] == "call" and self.flat(t):
            return []
        if self.flat(t):
            return []
        if t[0] == "call" and t[1].split(".")[-1] in ("max", "min", "amax", "amin") and any(k == "initial" for k, _ in t[3]):
            v = aslist(self.value(t[2][0]))
            i = self.value(dict(t[3])["initial"])
            f = max if "max" in t[1] else min
            return f(v + [i])
        if t[0] == "call" and t[1] in ("numpy.prod", "math.prod"):
            return self.size
        return None

    def flat(self, t):
        return self.L(t) == 0

    def value(self, t):
        try:
            return evalt(t, {}, self.atom)
        except ERR:
            return None

    def ev(self, t):
        return evalt(t, {}, self.atom)

    def possible(self, pc):
        """False: no empty position gets here; None: not known"""
        r = True
        for c, b in pc:
            if not self.about(c):
                continue
            try:
                if bool(self.ev(c)) != b:
                    return False
            except ERR:
                r = None
        return r

    def about(self, c):
        return any(self.flat(x) for x in walk(c) if x[0] in ("elem", "item", "call"))


def one(ctx, m, r, reduction):
    memo = {}
    E = Empty(lambda t: level(t, SELF, set(), memo))
    seen = set()
    news = {}
    for e in r.P.events:
        k = (e.kind, e.at, getattr(getattr(e, "obj", None), "t", None) and base(e.obj.t), getattr(getattr(e, "val", None), "t", None))
        if e.kind == "call" or e.kind == "meth":
            extremes(ctx, m, e, E, seen)
            limits(ctx, m, e, seen)
            divide(ctx, m, e, seen)
        if k in seen:
            continue
        seen.add(k)
        if e.kind == "setitem":
            empties(ctx, m, e)
            if reduction:
                stored(ctx, m, r, e, E, seen)
        if e.kind == "inplace" and e.op == "/" and reduction:
            inplace(ctx, m, e)
    if reduction:
        buffers(ctx, m, r, E)
        skipped(ctx, m, r, E)


def extremes(ctx, m, e, E, seen):
    n = e.name.split(".")[-1]
    if n not in EXT:
        return
    if e.kind == "call":
        if not e.name.startswith("numpy.") and e.name not in ("max", "min") or not e.args:
            return
        a = e.args[0].t
        if e.name in ("max", "min") and len(e.args) > 1:
            return
        axis = [x for x in e.args[1:]]
    else:
        a = e.obj.t
    kw = getattr(e, "kw", None) or {}
    if axis_kw(kw):
        return
    v = E.value(a)
    if not isinstance(v, list):
        return
    if (e.at, a) in seen:
        return
    p = E.possible(conds(e.pc))
    if v or "initial" in kw or "default" in kw:
        seen.add((e.at, a))
        ctx.ok(R1, e.at, "%s: %s of a position has a value without events" % (m, n))
    elif p is True:
        seen.add((e.at, a))
        ctx.bad(R1, e.at, "%s: %s of an empty sequence for a position without events: %s" % (m, n, show(a)[:70]), key="empty:%s" % m)
    elif p is False:
        seen.add((e.at, a))
        ctx.ok(R1, e.at, "%s: %s not reached for a position without events" % (m, n))
    else:
        ctx.und(R1, e.at, "%s: %s of a possibly empty position" % (m, n))


def axis_kw(kw):
    return "axis" in kw


def limits(ctx, m, e, seen):
    n = e.name.split(".")[-1]
    if n not in ("iinfo", "finfo") or not e.args:
        return
    a = e.args[0].t
    if a[0] in ("ext", "const"):
        return
    cs = [c for c, b in conds(e.pc) if mentions_type(c, a)]
    k = (n, e.at, bool(cs))
    if k in seen:
        return
    seen.add(k)
    if not cs:
        ctx.bad(R3, e.at, "%s: %s of a result type that may be of the other family" % (m, n), key="%s:%s" % (n, m))
        return
    fl = None
    for c, b in conds(e.pc):
        f = family(c, a)
        if f is not None:
            fl = f if b else {"float": "int", "int": "float"}[f]
    if fl is None:
        ctx.und(R3, e.at, "%s: condition for %s not understood" % (m, n))
    elif (fl == "float") != (n == "finfo"):
        ctx.bad(R3, e.at, "%s: %s of a %s result type" % (m, n, "floating" if fl == "float" else "integer"), key="%s:%s" % (n, m))
    else:
        ctx.ok(R3, e.at, "%s: %s only for its family" % (m, n))


def mentions_type(c, a):
    return a in walk(c)


def family(c, a):
    """the family a type test stands for"""
    if c[0] == "call" and c[1].split(".")[-1] in ("issubdtype", "issubclass") and len(c[2]) == 2 and a in walk(c[2][0]) and c[2][1][0] == "ext":
        n = c[2][1][1].split(".")[-1]
        return "float" if n in ("floating", "inexact") else "int" if n in ("integer", "unsignedinteger", "signedinteger") else None
    if c[0] == "cmp" and c[1] in ("==", "in", "!=", "not in") and c[2][0] == "attr" and c[2][2] == "kind":
        w = "".join(str(x[1]) for x in walk(c[3]) if x[0] == "const")
        f = "float" if w and set(w) <= set("f") else "int" if w and set(w) <= set("iu") else None
        return {"float": "int", "int": "float"}.get(f) if c[1] in ("!=", "not in") else f
    return None


def divide(ctx, m, e, seen):
    if e.kind != "call" or e.name.split(".")[-1] not in ("true_divide", "divide"):
        return
    kw = getattr(e, "kw", None) or {}
    out = kw.get("out")
    if out is None:
        return
    k = ("div", e.at)
    if k in seen:
        return
    seen.add(k)
    cast = kw.get("casting")
    if cast is not None and cast.t == ("const", "unsafe"):
        ctx.ok(R5, e.at, "%s: quotient converted to the result type" % m)
    elif integer_possible(out.t):
        ctx.bad(R5, e.at, "%s: division into a result of a chosen type without conversion fails for integer types" % m, key="division:%s" % m)
    else:
        ctx.und(R5, e.at, "%s: type of the divided array not known" % m)


def integer_possible(t):
    for x in walk(t):
        if x[0] == "call" and x[1] in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.ones"):
            d = dict(x[3]).get("dtype")
            if d is not None and (d[0] == "param" or d[0] == "attr" and d[2] == "dtype"):
                return True
    return False


def inplace(ctx, m, e):
    t = e.obj.t
    ruled = [b for c, b in conds(e.pc) if c[0] == "call" and c[1] == "isinstance" and c[2][0] == t and ("ext", "numpy.ndarray") in walk(c[2][1])]
    if False in ruled:
        ctx.ok(R5, e.at, "%s: scalars only" % m)
    elif integer_possible(t) and base_array(t):
        ctx.bad(R5, e.at, "%s: array of a chosen type is divided in place, which fails for integer types" % m, key="division:%s" % m)


def base_array(t):
    while t[0] == "meth" and t[1] in ("reshape", "ravel"):
        t = t[2]
    while t[0] == "new":
        t = t[2]
    return t[0] == "call" and t[1] in ("numpy.zeros", "numpy.empty", "numpy.full")


def empties(ctx, m, e):
    v = e.val.t
    while v[0] == "new":
        v = v[2]
    if not (v[0] == "call" and v[1] in ("numpy.array", "numpy.asarray", "numpy.empty", "numpy.zeros") and v[2]):
        return
    b = base(e.obj.t)
    if not (b[0] == "call" and ("ext", "object") in walk(b)):
        return
    a = v[2][0]
    while a[0] == "new":
        a = a[2]
    if a not in (("tuple", ()), ("list", ()), ("const", 0), ("tuple", (("const", 0),))):
        return
    d = dict(v[3]).get("dtype") or (v[2][1] if len(v[2]) > 1 else None)
    if d is None or d[0] == "ext" and ("float" in d[1] or "complex" in d[1]):
        ctx.bad(R6, e.at, "%s: the empty frame filled in has a floating type, which cannot be used as index" % m, key="empty frame:%s" % m)
    else:
        ctx.ok(R6, e.at, "%s: empty frame with type %s" % (m, show(d)))


def over_positions(r, e, E):
    """loops over all scan positions"""
    return [(u, t) for u, t in e.loops if E.L(t) == 2 or t[0] == "call" and t[1] in ("enumerate", "zip") and any(E.L(x) == 2 for x in t[2])]


def stored(ctx, m, r, e, E, seen):
    """what a position without events stores at its own place"""
    lp = over_positions(r, e, E)
    if not lp or e.loops[-1] != lp[-1] or e.op != "=":
        return
    u = lp[-1][0]
    if not own_place(e.key.t, u):
        return
    k = ("stored", e.at, tuple(conds(e.pc))[-2:])
    if k in seen:
        return
    seen.add(k)
    p = E.possible(conds(e.pc))
    if p is False:
        return
    try:
        v = E.ev(e.val.t)
    except ERR:
        return
    if v == 0:
        ctx.ok(R2, e.at, "%s: zero for a position without events" % m)
    elif p and isinstance(v, (int, float)):
        ctx.bad(R2, e.at, "%s: %s for a position without events" % (m, v), key="nonzero:%s" % m)
    else:
        ctx.und(R2, e.at, "%s: value for a position without events" % m)


def own_place(key, u):
    return key == ("idx", u) or key[0] == "idx" and key[1] == u


def skipped(ctx, m, r, E):
    """results that start from something else than zero must be written for empty positions too"""
    by = {}
    for e in r.P.events:
        if e.kind != "setitem":
            continue
        lp = over_positions(r, e, E)
        b = base(e.obj.t)
        if not lp or e.obj.t[0] not in ("call", "new") or b[0] != "call" or b[1] != "numpy.full":
            continue
        g = by.setdefault((b, "min" if minimum(e.val.t) else "set"), [])
        g.append(e)
    for (b, kind), es in by.items():
        fill = b[2][1] if len(b[2]) > 1 else None
        if fill == ("const", 0):
            continue
        ps = [E.possible(conds(e.pc)) for e in es]
        if all(p is False for p in ps):
            ctx.bad(R2, es[0].at, "%s: the result starts from %s and positions without events do not enter it" % (m, show(fill)[:40]), key="skipped:%s" % m)
        elif True in ps:
            ctx.ok(R2, es[0].at, "%s: positions without events enter the result" % m)
        else:
            ctx.und(R2, es[0].at, "%s: positions without events" % m)


def minimum(t):
    return any(x[0] == "call" and x[1].split(".")[-1] in ("minimum", "maximum") for x in walk(t))


def buffers(ctx, m, r, E):
    use, clear, wrote = {}, {}, {}
    for e in r.P.events:
        if e.kind != "setitem":
            continue
        lp = over_positions(r, e, E)
        if not lp or e.loops[-1] != lp[-1]:
            continue
        u = lp[-1][0]
        o = e.obj.t
        whole = e.key.t[0] == "slice" and all(x == ("const", None) for x in e.key.t[1:])
        if whole and e.val.t[0] == "const":
            clear.setdefault((o, u), e)
        elif not whole and e.op == "=" and any(E.flat(x) for x in walk(e.key.t)) and o not in walk(e.val.t):
            wrote.setdefault((o, u), e)
    for e in r.P.events:
        if e.kind != "setitem":
            continue
        for (o, u), w in wrote.items():
            if e.obj.t != o and any(x == u for x, _ in e.loops) and read_whole(e.val.t, o):
                use.setdefault((o, u), e)
    for k, e in use.items():
        if k in clear and clear[k].val.t[1] == 0:
            ctx.ok(R4, e.at, "%s: buffer set to zero for every position" % m)
        elif k not in clear and not any(x.kind == "meth" and x.name == "fill" and x.obj.t == k[0] for x in r.P.events):
            ctx.bad(R4, e.at, "%s: buffer still holds the counts of earlier positions" % m, key="buffer:%s" % m)
        else:
            ctx.und(R4, e.at, "%s: clearing of the buffer not followed" % m)


def read_whole(t, o):
    if t == o:
        return True
    if t[0] == "call":
        return any(read_whole(x, o) for x in t[2])
    if t[0] == "bin":
        return read_whole(t[2], o) or read_whole(t[3], o)
    return False
