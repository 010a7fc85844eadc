"""The operations that can map several events of a frame to one pixel (binning of frames, conversion of
the first file format; found by the np.unique split they need) are interpreted, and the summary of
their split loop is evaluated for pixels occurring 1, 2, 5 and 3 times: the row kept plus the rows set
aside must contain every pixel exactly as often, each row set aside must come with the scan position
of its row, the table receiving the rows must have as many slots per position as the fullest position
needs, and a row must be put into the first free slot only.  In every public method and image function
events may not get lost when frames are accumulated: no assignment that overwrites what an earlier
frame of the position contributed, no indexed += with pixels of several frames at once, no distinct
pixels without their counts, no use of the first frame of a position only, no loop over a fixed part of the frames, no sum in cells of
less than 32 bits; slicing keeps exactly the
events inside the selection."""
from pychk import *
import re
from c26 import level, entries
from nda import Nd, Arr, Wrong

R1 = "repeats are split without loss"
R2 = "repeats stay at their scan position"
R3 = "every row finds a free slot"
R4 = "accumulation counts every event"
R6 = "sums have room for the events of all frames"
R6b = "all frames of a position are visited"
R5 = "slicing keeps the selected events"
COUNTS = [1, 2, 5, 3]
PIX = [10, 11, 12, 13]


def check(ctx):
    splits = 0
    for inp in (False, True):
        splits += operation(ctx, "bin_frames", method(ctx, "bin_frames", {"in_place": const(inp)}), True)
    mod = Py().mods.get(COMPAT)
    ctx.require(mod is not None, "module %s not found" % COMPAT)
    n = 0
    for name, node in mod.names.items():
        if isinstance(node, ast.FunctionDef):
            r = function(ctx, COMPAT, name)
            n += operation(ctx, name, r, False)
    if not n:
        ctx.bad(R1, "python/stempy/io/compatibility.py", "no conversion splits repeated pixels into further frames", key="no split:conversion")
    ctx.count("operations splitting repeats", splits + n)
    seen = 0
    for obj, m, r in entries(ctx):
        if r is None:
            ctx.und(R4, "python/stempy", "%s: too large to follow" % m)
            continue
        seen += 1
        accumulate(ctx, obj, m, r)
    ctx.count("methods and functions", seen)
    P = Py()
    for name, node in P.mods[IMAGE].names.items():
        if isinstance(node, ast.FunctionDef):
            try:
                r = function(ctx, IMAGE, name)
            except Exception:
                r = None
            for e in r.P.events if r else ():
                if e.kind == "setitem":
                    width(ctx, name, e)


# --- splitting -----------------------------------------------------------------------------------
def operation(ctx, name, r, needed):
    if r is None:
        ctx.und(R1, "python/stempy", "%s: too large to follow" % name)
        return 0
    P = r.P
    uniq = {}
    for e in P.events:
        if e.kind == "call" and e.name == "numpy.unique" and e.loops:
            t = getattr(e.ret, "t", e.ret)
            if any(k == "return_counts" and v == ("const", True) for k, v in t[3]):
                uniq.setdefault(t, e)
    n = 0
    for t, e in uniq.items():
        n += split(ctx, name, r, t, e)
    if needed and not n:
        if uniq:
            ctx.und(R1, r.at, "%s: repeats are split in a form not followed" % name)
        elif not any(e.kind == "call" and e.name.split(".")[-1] in ("unique", "bincount", "Counter", "diff", "lexsort", "sort", "argsort") for e in P.events):
            ctx.bad(R1, r.at, "%s maps several events to one pixel and does not look for repeats" % name, key="no split:%s" % name)
    slots(ctx, name, r)
    return n


def split(ctx, name, r, U, ev):
    P = r.P
    rows, keep = [], []
    outer = ev.loops
    for e in P.events:
        if len(e.loops) < len(outer) or e.loops[:len(outer)] != outer:
            continue
        if e.kind == "setitem" and e.op == "=" and e.loops == outer and (U in walk(e.val.t) or e.val.t == U[2][0]):
            keep.append(e)
        if e.kind == "mutcall" and e.name in ("append", "extend", "insert") and e.args:
            rows.append(e)
    if not rows:
        if keep:
            ctx.bad(R1, keep[0].at, "%s keeps the distinct pixels of a row and nothing of its repeats" % name, key="dropped:%s" % name)
            return 1
        return 0
    inner = [e for e in rows if len(e.loops) > len(outer)]
    data = [e for e in rows if U in walk(e.args[-1].t)]
    pos = [e for e in rows if e not in data]
    if not data:
        return 0
    at = data[0].at
    total = [0] * len(PIX)
    try:
        atom = Split(U)
        for t in set(e.val.t for e in keep):
            v = atom.value(t, {})
            total = tally(total, v)
        np_ = 0
        us = set(e.loops[len(outer):] for e in inner)
        if len(us) > 1 or any(len(u) > 1 for u in us):
            raise Unknown("loops")
        nd = 0
        for once in dedupe([e for e in data if e.loops == outer]):
            total = tally(total, atom.value(once.args[-1].t, {}))
            nd += 1
        np_ += len(dedupe([e for e in pos if e.loops == outer]))
        for u in us:
            body_d = dedupe([e for e in data if e.loops != outer])
            body_p = dedupe([e for e in pos if e.loops != outer])
            uid = u[0][0]
            for env in iterations(P.loopinfo[uid], uid, atom):
                for e in body_d:
                    total = tally(total, atom.value(e.args[-1].t, env))
                    nd += 1
                np_ += len(body_p)
    except (Unknown, KeyError, TypeError, IndexError, ValueError) as x:
        ctx.und(R1, at, "%s: split loop not evaluated (%s)" % (name, str(x)[:80]))
        return 1
    if not keep:
        ctx.und(R1, at, "%s: no row kept in place" % name)
    elif total != COUNTS:
        ctx.bad(R1, at, "%s: pixels occurring %s times occur %s times after the split" % (name, COUNTS, total), key="multiplicity:%s" % name)
    else:
        ctx.ok(R1, at, "%s: pixels occurring %s times keep their number" % (name, COUNTS))
    if nd != np_:
        ctx.bad(R2, at, "%s: %d rows set aside with %d scan positions" % (name, nd, np_), key="positions:%s" % name)
        return 1
    o = outer[-1][0] if outer else None
    for e in dedupe(pos):
        t = e.args[-1].t
        if not of_row(ctx, name, e, t, o, outer[-1][1] if outer else None):
            continue
        if ("idx", o) in walk(t) or any(x[0] == "elem" and x[2] == o for x in walk(t)):
            ctx.ok(R2, e.at, "%s: row set aside with the position of its row" % name)
        else:
            ctx.bad(R2, e.at, "%s: the position stored with a row set aside does not depend on the row: %s" % (name, show(t)[:80]), key="position:%s" % name)
    return 1


def table(fps, obj=SELF):
    """3 scan positions with fps rows each"""
    data = ("attr", obj, "data")
    return {("attr", obj, "scan_shape"): (3, 1), ("attr", data, "shape"): (3, fps), ("attr", obj, "scan_positions"): Arr((3,), range(3)),
            ("call", "len", (data,), ()): 3}


def of_row(ctx, name, e, t, o, it):
    """the position set aside must be that of the row, for tables with one and with two rows per position"""
    if name != "bin_frames" or o is None:
        return True
    for fps in (2, 1):
        env = table(fps)
        for i in range(3 * fps):
            env[("idx", o)] = i
            if it is not None:
                env[("elem", ("call", "range", it[2], ()) if it[0] == "call" else it, o)] = i
            try:
                v = Nd(env).value(t)
            except Wrong as w:
                ctx.bad(R2, e.at, "%s: %s" % (name, w), key="position:%s" % name)
                return False
            except Unknown:
                return True
            if v != i // fps:
                ctx.bad(R2, e.at, "%s: with %d rows per scan position row %d belongs to position %d and is set aside for %s" % (
                    name, fps, i, i // fps, v), key="position:%s" % name)
                return False
    return True


def in_order(ctx, name, e, P_):
    """the positions paired with the rows that stay must be those of the rows"""
    if name != "bin_frames":
        return
    t = P_
    if t[0] == "call" and t[1].split(".")[-1] == "append" and t[2]:
        t = t[2][0]
    elif t[0] == "call" and t[1].split(".")[-1] in ("concatenate", "hstack") and t[2] and t[2][0][0] in ("tuple", "list") and t[2][0][1]:
        t = t[2][0][1][0]
    for fps in (2, 1):
        want = [i // fps for i in range(3 * fps)]
        try:
            v = Nd(table(fps)).value(t)
        except (Unknown, Wrong):
            ctx.und(R2, e.at, "%s: positions of the rows not evaluated" % name)
            return
        if not isinstance(v, Arr) or v.flat[:len(want)] != want:
            ctx.bad(R2, e.at, "%s: with %d rows per scan position the rows are given to the positions %s instead of %s" % (
                name, fps, v.flat if isinstance(v, Arr) else v, want), key="order:%s" % name)
            return
    ctx.ok(R2, e.at, "%s: every row is given to its own scan position" % name)


def dedupe(es):
    seen, out = set(), []
    for e in es:
        k = (e.at, e.args[-1].t, e.obj.t)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def tally(total, v):
    if not isinstance(v, list):
        raise Unknown("value")
    return [n + v.count(p) for n, p in zip(total, PIX)]


class Split:
    def __init__(self, U):
        self.U = U

    def value(self, t, env):
        U = self.U
        inp = U[2][0]

        def atom(x):
            if x == ("item", U, ("const", 0)):
                return list(PIX)
            if x == ("item", U, ("const", 1)):
                return list(COUNTS)
            if x == inp:
                return [p for p, c in zip(PIX, COUNTS) for _ in range(c)]
            return None
        return evalt(t, env, atom)


def iterations(info, uid, atom):
    """the environments of the iterations of a summarised loop"""
    env = {("phi", uid, n): atom.value(a.t, {}) for n, (a, _) in info["vars"].items() if a is not None and known(atom, a.t)}
    ends = [z for z, o in info["ends"]]
    if any(o is not None and o[0] == "break" for _, o in info["ends"]) or info["outs"]:
        raise Unknown("leaves early")
    if len(ends) != 1:
        raise Unknown("branches in the loop")
    n = 0
    it = info["iter"]
    seq = None
    if it is not None:
        if it.t[0] != "call" or it.t[1] != "range":
            raise Unknown("loop over %s" % show(it.t)[:40])
        seq = list(range(*[atom.value(x, {}) for x in it.t[2]]))
    while n < 40:
        if seq is not None:
            if n >= len(seq):
                return
            env[("elem", it.t, uid)] = seq[n]
        elif not atom.value(info["test"].t, env):
            return
        yield dict(env)
        nxt = {}
        for k in env:
            if k[0] == "phi":
                nxt[k] = atom.value(ends[0].env[k[2]].t, env)
        env = nxt
        n += 1
    raise Unknown("loop does not end")


def known(atom, t):
    try:
        atom.value(t, {})
        return True
    except Exception:      # noqa
        return False


# --- slots ---------------------------------------------------------------------------------------
def base(t):
    while t[0] in ("item", "elem", "new"):
        t = t[2] if t[0] == "new" else t[1]
    return t


def slots(ctx, name, r):
    P = r.P
    done = set()
    for e in P.events:
        if e.kind != "setitem" or e.op != "=" or len(e.loops) < 2:
            continue
        b = base(e.obj.t)
        if not (b[0] == "call" and b[1] == "numpy.empty" and ("ext", "object") in walk(b)):
            continue
        (ou, ot), (iu, itr) = e.loops[-2], e.loops[-1]
        if not (ot[0] == "call" and ot[1] == "zip") or not any(x[0] == "elem" and x[2] == ou for x in walk(e.val.t)):
            continue
        if not any(x[0] == "elem" and x[2] == ou for x in walk(e.obj.t)):
            continue
        k = (e.at, b)
        if k in done:
            continue
        done.add(k)
        n = b[2][0]
        n = n[1][1] if n[0] == "tuple" and len(n[1]) == 2 else None
        P_ = ot[2][-1]
        if itr[0] == "call" and itr[1] == "range" and n is not None and itr[2][-1] == n:
            ctx.ok(R3, e.at, "%s: all slots of the position are tried" % name)
        elif itr[0] == "call" and itr[1] == "range":
            ctx.und(R3, e.at, "%s: slots tried %s, slots there %s" % (name, show(itr)[:60], show(n)[:60] if n else "?"))
        free = [c for c, v in conds(e.pc) if c[0] == "cmp" and c[1] in ("is", "is not") and c[3] == ("const", None) and (c[1] == "is") == v and
                base(c[2]) == b]
        if not free:
            ctx.bad(R3, e.at, "%s: a row is stored without checking that its slot is free" % name, key="overwrite:%s" % name)
        else:
            ctx.ok(R3, e.at, "%s: only a free slot is filled" % name)
        info = P.loopinfo[iu]
        again = [o for z, o in info["ends"] if stored(z, free) and o is None or stored(z, free) and o[0] == "continue"]
        if not again and not any(o is not None for _, o in info["ends"]) and not info["outs"]:
            if any(x[0] == "phi" and x[1] == iu for c, _ in conds(e.pc) for x in walk(c)):
                ctx.und(R3, e.at, "%s: end of the search for a slot not followed" % name)
                continue
            again = [None]
        if free and again:
            ctx.bad(R3, e.at, "%s: after storing a row the search for a slot goes on" % name, key="repeated:%s" % name)
        elif free:
            ctx.ok(R3, e.at, "%s: a row is stored once" % name)
        D = ot[2][0]
        grew = D[0] in ("new", "call") and base(D)[0] == "call" and base(D)[1] in ("numpy.empty", "numpy.zeros", "numpy.full") and base(D)[2] and \
            base(D)[2][0][0] == "bin" and base(D)[2][0][1] == "+" and any(x[0] == "list" for x in walk(base(D)[2][0])) and \
            any(x[0] == "call" and x[1] == "len" and base(x[2][0])[0] == "list" for x in walk(base(D)[2][0]))
        if grew and D != P_ and len(ot[2]) == 2:
            if P_[0] == "call" and P_[1] in ("numpy.arange", "numpy.repeat", "range", "numpy.tile") or P_[0] in ("param", "attr"):
                ctx.bad(R3, e.at, "%s: rows set aside are appended to the rows, their positions are not: zip ends before them" % name, key="cut:%s" % name)
            else:
                ctx.ok(R3, e.at, "%s: positions appended with the rows" % name)
        enough(ctx, name, e, n, P_, D)
        in_order(ctx, name, e, P_)


def conds(pc):
    for c in pc:
        if isinstance(c, tuple) and len(c) == 2 and isinstance(c[1], bool):
            yield c
        elif isinstance(c, tuple):
            if c[0] == "not":
                yield c[1], False
            else:
                yield c, True


def stored(z, free):
    pc = list(conds(z.pc))
    return any((c, True) in pc and c[1] == "is" or (c, False) in pc and c[1] == "is not" for c in free)


def enough(ctx, name, e, n, P_, D=None):
    if n is None:
        ctx.und(R3, e.at, "%s: number of slots not known" % name)
        return
    sample = [0, 0, 1, 1, 1, 1, 2]

    def atom(x):
        if D is not None and x == ("call", "len", (D,), ()):
            return len(sample)
        if x[0] == "call" and x[1] in ("numpy.prod", "math.prod") and x[2] and (x[2][0] == ("param", "scan_shape") or x[2][0] == ("attr", SELF, "scan_shape")):
            return 3
        if x[0] == "call" and x[1] == "numpy.unique" and x[2] and x[2][0] == P_:
            return (sorted(set(sample)), [sample.count(p) for p in sorted(set(sample))])
        if x[0] == "call" and x[1] == "numpy.bincount" and x[2] and x[2][0] == P_:
            return [sample.count(p) for p in range(max(sample) + 1)]
        return None
    try:
        v = evalt(n, {P_: sample}, atom)
        (ctx.ok if v >= 4 else lambda *a: ctx.bad(*a, key="slots:%s" % name))(
            R3, e.at, "%s: %s slots where the fullest position has 4 rows" % (name, v))
        return
    except (Unknown, KeyError, TypeError, IndexError, ValueError):
        pass
    grown = P_[0] == "call" and P_[1].split(".")[-1] in ("append", "concatenate", "hstack")
    if grown and not any(x in walk(n) for x in (P_,) + P_[2][1:]) and ("tuple", ()) not in walk(n) and ("list", ()) not in walk(n):
        ctx.bad(R3, e.at, "%s: the number of slots does not depend on the rows set aside: %s" % (name, show(n)[:60]), key="slots:%s" % name)
    elif P_[0] == "call" and P_[1] == "numpy.repeat" and len(P_[2]) > 1 and P_[2][1] == n:
        ctx.ok(R3, e.at, "%s: as many slots as rows per position" % name)
    else:
        ctx.und(R3, e.at, "%s: number of slots not compared: %s" % (name, show(n)[:60]))


# --- accumulation --------------------------------------------------------------------------------
def accumulate(ctx, obj, m, r):
    memo = {}
    L = lambda t: level(t, obj, set(), memo)
    ok = 0
    for e in r.P.events:
        if e.kind in ("setitem", "inplace", "mutcall"):
            for v in [e.key.t, e.val.t] if e.kind == "setitem" else [e.val.t] if e.kind == "inplace" else [a.t for a in e.args or ()]:
                single(ctx, m, e, v, L)
        if e.kind == "mutcall":
            for a in e.args or ():
                x = a.t
                if x[0] == "item" and x[2] == ("const", 0):
                    x = x[1]
                if x[0] == "call" and x[1] == "numpy.unique" and x[2] and L(x[2][0]) == 0 and joined(x[2][0]) and \
                        not any(k in ("return_counts", "return_inverse") for k, _ in x[3]):
                    ctx.bad(R4, e.at, "%s: distinct pixels of several frames are used without their counts" % m, key="unique:%s" % m)
        if e.kind == "setitem":
            key, val = e.key.t, e.val.t
            width(ctx, m, e)
            partial(ctx, m, e, obj, L)
            if e.op == "+" and L(key) == 0 and joined(key) and not key[0] == "item":
                ctx.bad(R4, e.at, "%s: += with the pixels of several frames counts a repeated pixel once" % m, key="fancy add:%s" % m)
                continue
            for x in walk(("pair", key, val)):
                if x[0] == "call" and x[1] == "numpy.unique" and x[2] and L(x[2][0]) == 0 and joined(x[2][0]) and \
                        not any(k in ("return_counts", "return_inverse") for k, _ in x[3]):
                    ctx.bad(R4, e.at, "%s: distinct pixels of several frames are used without their counts" % m, key="unique:%s" % m)
            frames = [(u, t) for u, t in e.loops if L(t) == 1 or getattr(r.P.loopinfo[u]["iter"], "lv", None) == "D1" or t[0] == "item" and getattr(r.P.loopinfo[u]["iter"], "lv", None) == "D2" or t[0] == "call" and t[1] == "enumerate" and L(t[2][0]) == 1]
            if not frames:
                continue
            u, t = e.loops[-1]
            if (u, t) == frames[-1] and e.op in ("=", None):
                inner = lambda y: ("idx", u) in walk(y) or any(z[0] == "elem" and z[2] == u for z in walk(y))
                if (L(key) == 0 or e.key.lv in ("F", "D1")) and inner(key) and val[0] == "const" and val[1]:
                    ctx.bad(R4, e.at, "%s: pixels of every frame are set, not added up" % m, key="set:%s" % m)
                    continue
                if not inner(key) and inner(val) and not inner(e.obj.t) and e.obj.t not in walk(val) and base(e.obj.t) not in walk(val) and \
                        all(o is None or o[0] == "continue" for _, o in r.P.loopinfo[u]["ends"]):
                    ctx.bad(R4, e.at, "%s: the contribution of every frame replaces the one before" % m, key="replace:%s" % m)
                    continue
            ok += 1
            kept(ctx, m, e, L)
    if ok:
        ctx.ok(R4, r.at, "%s: %d writes per frame add up or have a place of their own" % (m, ok))


def width(ctx, m, e):
    """a cell that adds up events of many frames is not narrower than 32 bits"""
    b = base(e.obj.t)
    if e.op != "+" or b[0] != "call" or b[1] not in ("numpy.zeros", "numpy.full", "numpy.empty", "numpy.ones"):
        return
    at = 2 if b[1] == "numpy.full" else 1
    d = dict(b[3]).get("dtype") or (b[2][at] if len(b[2]) > at else None)
    if d is None:
        return
    nm = d[1].split(".")[-1] if d[0] == "ext" else d[1] if d[0] == "const" else None
    w = re.fullmatch(r"[<>=|]?[uif](\d)|u?int(\d+)|float(\d+)|(bool_?)|u?(byte)|u?(short)|half", nm) if isinstance(nm, str) else None
    if w is None:
        return
    bits = int(w.group(1)) * 8 if w.group(1) else int(w.group(2) or w.group(3) or 8)
    if bits < 32:
        ctx.bad(R6, e.at, "%s: events of all frames are added up in cells of type %s" % (m, nm), key="narrow:%s" % m)
    else:
        ctx.ok(R6, e.at, "%s: added up as %s" % (m, nm))


def partial(ctx, m, e, obj, L):
    """the frames of a position are all visited"""
    data = ("attr", obj, "data")
    for u, t in e.loops:
        for x in walk(t):
            if x[0] != "item":
                continue
            k = x[2]
            if x[1] == data and k[0] == "tuple" and len(k[1]) == 2:
                k = k[1][1]
            elif L(x[1]) != 1 or x[1][0] != "elem":
                continue
            if k[0] == "slice" and any(a[0] == "const" and a[1] not in d for a, d in zip(k[1:], ((None, 0), (None,), (None, 1, -1)))):
                if not any("num_frames_per_scan" in str(c) or data in walk(c) or x[1] in walk(c) for c, _ in conds(e.pc)):
                    ctx.bad(R6b, e.at, "%s: only the frames [%s] of every position are visited" % (m, show(k)), key="frames:%s" % m)


def single(ctx, m, e, v, L):
    for x in walk(v):
        if x[0] != "item" or x[2][0] != "const" or x[2][1] not in (0, -1) or L(x[1]) != 1 or x[1][0] not in ("elem", "item"):
            continue
        fs = x[1]
        env = {("attr", fs, "size"): 2, ("call", "len", (fs,), ()): 2, ("item", ("attr", fs, "shape"), ("const", 0)): 2, ("attr", fs, "shape"): (2,)}
        def two():
            for c, b in conds(e.pc):
                if fs in walk(c) and x not in walk(c) and bool(evalt(c, env)) != b:
                    return False
            return True
        try:
            if two():
                ctx.bad(R4, e.at, "%s: only one frame of a position with several is used: %s" % (m, show(x)[:60]), key="one frame:%s" % m)
        except (Unknown, KeyError, TypeError, IndexError):
            ctx.und(R4, e.at, "%s: condition for using one frame not evaluated" % m)


def joined(t):
    return any(x[0] == "call" and x[1].split(".")[-1] in ("concatenate", "hstack") for x in walk(t))


def kept(ctx, m, e, L):
    for x in walk(e.val.t):
        if x[0] != "item" or x[1][0] != "item" or L(x[1][2]) != 0:
            continue
        mp = x[1][1]
        b = base(mp)
        if not (b[0] == "call" and b[1] in ("numpy.full",) and len(b[2]) > 1):
            continue
        try:
            fill = evalt(b[2][1], {})
            sample = [fill, 0, 1, 7]
            mask = evalt(x[2], {x[1]: sample})
        except (Unknown, KeyError, TypeError, IndexError):
            ctx.und(R5, e.at, "%s: selection not evaluated: %s" % (m, show(x[2])[:60]))
            continue
        if not isinstance(mask, list) or fill in (0, 1, 7) or mask != [False, True, True, True]:
            ctx.bad(R5, e.at, "%s: pixels outside marked %s, kept of %s: %s" % (m, fill, sample, mask), key="selection:%s" % m)
        else:
            ctx.ok(R5, e.at, "%s: exactly the events of the selected pixels are kept" % m)
